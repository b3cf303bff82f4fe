-------------------------------- MODULE Irc ---------------------------------
(***************************************************************************)
(* What one line of the Twitch IRC dialect means, stated declaratively.    *)
(***************************************************************************)
EXTENDS Text

\* The named commands and their wire names.
CommandNames ==
   << <<"Ping", T("PING")>>, <<"Pong", T("PONG")>>, <<"Join", T("JOIN")>>, <<"Part", T("PART")>>,
      <<"Privmsg", T("PRIVMSG")>>, <<"Whisper", T("WHISPER")>>, <<"ClearChat", T("CLEARCHAT")>>,
      <<"ClearMsg", T("CLEARMSG")>>, <<"GlobalUserState", T("GLOBALUSERSTATE")>>,
      <<"Notice", T("NOTICE")>>, <<"Reconnect", T("RECONNECT")>>, <<"RoomState", T("ROOMSTATE")>>,
      <<"UserNotice", T("USERNOTICE")>>, <<"UserState", T("USERSTATE")>>, <<"Capability", T("CAP")>>,
      <<"RplWelcome", T("001")>>, <<"RplYourHost", T("002")>>, <<"RplCreated", T("003")>>,
      <<"RplMyInfo", T("004")>>, <<"RplNames", T("353")>>, <<"RplEndOfNames", T("366")>>,
      <<"RplMotd", T("372")>>, <<"RplMotdStart", T("375")>>, <<"RplEndOfMotd", T("376")>> >>
CommandKind(w) ==
    LET i == SelectInSeq(CommandNames, LAMBDA e : e[2] = w)
    IN IF i = 0 THEN "Other" ELSE CommandNames[i][1]

\* The named tags and their wire names.
TagNames ==
   <<
      <<"MsgId", T("msg-id")>>,
      <<"Badges", T("badges")>>,
      <<"BadgeInfo", T("badge-info")>>,
      <<"DisplayName", T("display-name")>>,
      <<"EmoteOnly", T("emote-only")>>,
      <<"Emotes", T("emotes")>>,
      <<"Flags", T("flags")>>,
      <<"Id", T("id")>>,
      <<"Mod", T("mod")>>,
      <<"RoomId", T("room-id")>>,
      <<"Subscriber", T("subscriber")>>,
      <<"TmiSentTs", T("tmi-sent-ts")>>,
      <<"Turbo", T("turbo")>>,
      <<"UserId", T("user-id")>>,
      <<"UserType", T("user-type")>>,
      <<"ClientNonce", T("client-nonce")>>,
      <<"FirstMsg", T("first-msg")>>,
      <<"ReplyParentDisplayName", T("reply-parent-display-name")>>,
      <<"ReplyParentMsgBody", T("reply-parent-msg-body")>>,
      <<"ReplyParentMsgId", T("reply-parent-msg-id")>>,
      <<"ReplyParentUserId", T("reply-parent-user-id")>>,
      <<"ReplyParentUserLogin", T("reply-parent-user-login")>>,
      <<"ReplyThreadParentMsgId", T("reply-thread-parent-msg-id")>>,
      <<"ReplyThreadParentUserLogin", T("reply-thread-parent-user-login")>>,
      <<"FollowersOnly", T("followers-only")>>,
      <<"R9K", T("r9k")>>,
      <<"Rituals", T("rituals")>>,
      <<"Slow", T("slow")>>,
      <<"SubsOnly", T("subs-only")>>,
      <<"MsgParamCumulativeMonths", T("msg-param-cumulative-months")>>,
      <<"MsgParamDisplayName", T("msg-param-displayName")>>,
      <<"MsgParamLogin", T("msg-param-login")>>,
      <<"MsgParamMonths", T("msg-param-months")>>,
      <<"MsgParamPromoGiftTotal", T("msg-param-promo-gift-total")>>,
      <<"MsgParamPromoName", T("msg-param-promo-name")>>,
      <<"MsgParamRecipientDisplayName", T("msg-param-recipient-display-name")>>,
      <<"MsgParamRecipientId", T("msg-param-recipient-id")>>,
      <<"MsgParamRecipientUserName", T("msg-param-recipient-user-name")>>,
      <<"MsgParamSenderLogin", T("msg-param-sender-login")>>,
      <<"MsgParamSenderName", T("msg-param-sender-name")>>,
      <<"MsgParamShouldShareStreak", T("msg-param-should-share-streak")>>,
      <<"MsgParamStreakMonths", T("msg-param-streak-months")>>,
      <<"MsgParamSubPlan", T("msg-param-sub-plan")>>,
      <<"MsgParamSubPlanName", T("msg-param-sub-plan-name")>>,
      <<"MsgParamViewerCount", T("msg-param-viewerCount")>>,
      <<"MsgParamRitualName", T("msg-param-ritual-name")>>,
      <<"MsgParamThreshold", T("msg-param-threshold")>>,
      <<"MsgParamGiftMonths", T("msg-param-gift-months")>>,
      <<"MsgParamColor", T("msg-param-color")>>,
      <<"Login", T("login")>>,
      <<"Bits", T("bits")>>,
      <<"SystemMsg", T("system-msg")>>,
      <<"EmoteSets", T("emote-sets")>>,
      <<"ThreadId", T("thread-id")>>,
      <<"MessageId", T("message-id")>>,
      <<"ReturningChatter", T("returning-chatter")>>,
      <<"Color", T("color")>>,
      <<"Vip", T("vip")>>,
      <<"TargetUserId", T("target-user-id")>>,
      <<"TargetMsgId", T("target-msg-id")>>,
      <<"BanDuration", T("ban-duration")>>,
      <<"MsgParamMultimonthDuration", T("msg-param-multimonth-duration")>>,
      <<"MsgParamWasGifted", T("msg-param-was-gifted")>>,
      <<"MsgParamMultimonthTenure", T("msg-param-multimonth-tenure")>>,
      <<"SentTs", T("sent-ts")>>,
      <<"MsgParamOriginId", T("msg-param-origin-id")>>,
      <<"MsgParamFunString", T("msg-param-fun-string")>>,
      <<"MsgParamSenderCount", T("msg-param-sender-count")>>,
      <<"MsgParamProfileImageUrl", T("msg-param-profileImageURL")>>,
      <<"MsgParamMassGiftCount", T("msg-param-mass-gift-count")>>,
      <<"MsgParamGiftMonthBeingRedeemed", T("msg-param-gift-month-being-redeemed")>>,
      <<"MsgParamAnonGift", T("msg-param-anon-gift")>>,
      <<"CustomRewardId", T("custom-reward-id")>>,
      <<"PinnedChatPaidAmount", T("pinned-chat-paid-amount")>>,
      <<"PinnedChatPaidCanonicalAmount", T("pinned-chat-paid-canonical-amount")>>,
      <<"PinnedChatPaidCurrency", T("pinned-chat-paid-currency")>>,
      <<"PinnedChatPaidExponent", T("pinned-chat-paid-exponent")>>,
      <<"PinnedChatPaidLevel", T("pinned-chat-paid-level")>>,
      <<"PinnedChatPaidIsSystemMessage", T("pinned-chat-paid-is-system-message")>> >>

-----------------------------------------------------------------------------
(* Tags: `@key=value;key=value ` at the start of the line.                  *)

\* A piece starts at `from`; its key ends at the first '=' (at `eq`), its value at
\* the next ';' or at the end.  (A fold rather than a recursion so that TLC can
\* evaluate it for tens of thousands of tags.)
TagPairs(body) ==
    LET pair(acc, end) == <<SubSeq(body, acc.from, acc.eq - 1), SubSeq(body, acc.eq + 1, end)>>
        step(acc, c) ==
            IF acc.eq = 0
            THEN [acc EXCEPT !.at = @ + 1, !.eq = IF c = EQS THEN acc.at ELSE 0]
            ELSE IF c # SEMI THEN [acc EXCEPT !.at = @ + 1]
            ELSE [at |-> acc.at + 1, from |-> acc.at + 1, eq |-> 0,
                  out |-> Append(acc.out, pair(acc, acc.at - 1))]
        last == FoldLeft(step, [at |-> 1, from |-> 1, eq |-> 0, out |-> <<>>], body)
    IN IF last.eq = 0 THEN last.out ELSE Append(last.out, pair(last, Len(body)))

HasTags(s) == s # <<>> /\ s[1] = AT /\ Pos(s, SP, 2) # 0
TagBody(s) == SubSeq(s, 2, Pos(s, SP, 2) - 1)
AfterTags(s) == IF HasTags(s) THEN From(s, Pos(s, SP, 2) + 1) ELSE s
Tags(s) == IF HasTags(s) THEN TagPairs(TagBody(s)) ELSE <<>>

\* Value of the first tag with this key.
Lookup(tags, key) == LET i == SelectInSeq(tags, LAMBDA p : p[1] = key)
                     IN IF i = 0 THEN None ELSE Some(tags[i][2])

-----------------------------------------------------------------------------
(* Prefix: `:nick!user@host `, `:nick@host ` or `:host `.                   *)

HasPrefix(s) == s # <<>> /\ s[1] = COLON /\ Pos(s, SP, 2) # 0
PrefixParts(b) ==
    LET at == LastPos(b, AT)
        bang == LastPos(b, BANG)
        first == Pos(b, BANG, 1)
        \* the last '!' before the last '@'
        inner == IF at = 0 THEN 0 ELSE LastPos(UpTo(b, at), BANG)
    IN [nick |-> IF bang # 0 THEN Some(UpTo(b, bang - 1))
                 ELSE IF at # 0 THEN Some(UpTo(b, at - 1)) ELSE None,
        user |-> IF inner # 0 THEN Some(SubSeq(b, inner + 1, at - 1)) ELSE None,
        host |-> From(b, at + 1)]

PrefixShown(p) ==
    IF p.nick = None THEN p.host
    ELSE IF p.user = None THEN p.nick[1] \o <<AT>> \o p.host
    ELSE p.nick[1] \o <<BANG>> \o p.user[1] \o <<AT>> \o p.host

-----------------------------------------------------------------------------
(* The whole line.                                                          *)

NoMessage == [ok |-> FALSE]

Parse(s) ==
    LET r0 == AfterTags(s)
        hasP == HasPrefix(r0)
        pe == Pos(r0, SP, 2)
        r1 == IF hasP THEN From(r0, pe + 1) ELSE r0
        ce == Pos(r1, SP, 1)
        word == IF ce = 0 THEN r1 ELSE UpTo(r1, ce - 1)
        r2 == IF ce = 0 THEN <<>> ELSE From(r1, ce + 1)
        hasC == r2 # <<>> /\ r2[1] = HASH
        he == Pos(r2, SP, 1)
        chan == IF ~hasC THEN None ELSE IF he = 0 THEN Some(r2) ELSE Some(UpTo(r2, he - 1))
        params == IF ~hasC THEN r2 ELSE IF he = 0 THEN <<>> ELSE From(r2, he + 1)
        kind == CommandKind(word)
        tp == Pos(params, COLON, 1)
    IN IF word = <<>> THEN NoMessage
       ELSE [ok |-> TRUE,
             raw |-> s,
             tags |-> Tags(s),
             prefix |-> IF hasP THEN Some(PrefixParts(SubSeq(r0, 2, pe - 1))) ELSE None,
             kind |-> kind,
             word |-> word,
             params |-> IF params = <<>> THEN None ELSE Some(params),
             text |-> IF params = <<>> THEN None
                      ELSE IF tp = 0 THEN Some(params) ELSE Some(From(params, tp + 1)),
             channel |-> CASE kind = "RplNames" -> IF params = <<>> THEN None ELSE Nth(Words(params), 3)
                           [] kind = "RplEndOfNames" -> IF params = <<>> THEN None ELSE Nth(Words(params), 2)
                           [] OTHER -> chan]

-----------------------------------------------------------------------------
(* Tag value escapes.                                                       *)

Unescaped(c) == CASE c = COLON -> SEMI
                  [] c = 115 -> SP      \* s
                  [] c = 114 -> CR      \* r
                  [] c = 110 -> LF      \* n
                  [] c = TCOMMA -> COMMA
                  [] OTHER -> c
Plain(c) == IF c = TCOMMA THEN COMMA ELSE c
Unescape(s) ==
    LET step(acc, c) ==
          IF acc.esc THEN [esc |-> FALSE, out |-> Append(acc.out, Unescaped(c))]
          ELSE IF c = BSL THEN [esc |-> TRUE, out |-> acc.out]
          ELSE [esc |-> FALSE, out |-> Append(acc.out, Plain(c))]
    IN FoldLeft(step, [esc |-> FALSE, out |-> <<>>], s).out
NeedsUnescape(s) == \E i \in 1..Len(s) : s[i] \in {BSL, TCOMMA}

\* What a client writes so that it reads back as v.
EscapeChar(c) == CASE c = SEMI -> <<BSL, COLON>>
                   [] c = SP -> <<BSL, 115>>
                   [] c = BSL -> <<BSL, BSL>>
                   [] c = CR -> <<BSL, 114>>
                   [] c = LF -> <<BSL, 110>>
                   [] OTHER -> <<c>>
Escape(v) == FoldLeft(LAMBDA acc, c : acc \o EscapeChar(c), <<>>, v)
=============================================================================

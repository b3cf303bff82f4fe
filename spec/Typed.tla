------------------------------- MODULE Typed --------------------------------
(***************************************************************************)
(* The Twitch message types: what Typed(p) says about a parsed line p      *)
(* (a record of Irc!Parse) is what the library has to report through its   *)
(* accessors.  Err means the line is not a valid message of its kind.      *)
(***************************************************************************)
EXTENDS Irc

Err == [kind |-> "Err"]
Msg(kind, fields) == [kind |-> kind, f |-> fields]

\* Keys, converted once.
K == [msgId |-> T("msg-id"), badges |-> T("badges"), badgeInfo |-> T("badge-info"),
      displayName |-> T("display-name"), emoteOnly |-> T("emote-only"), emotes |-> T("emotes"),
      id |-> T("id"), roomId |-> T("room-id"), ts |-> T("tmi-sent-ts"), userId |-> T("user-id"),
      rMsg |-> T("reply-parent-msg-id"), rUserId |-> T("reply-parent-user-id"),
      rLogin |-> T("reply-parent-user-login"), rName |-> T("reply-parent-display-name"),
      rBody |-> T("reply-parent-msg-body"), rtMsg |-> T("reply-thread-parent-msg-id"),
      rtLogin |-> T("reply-thread-parent-user-login"),
      followersOnly |-> T("followers-only"), r9k |-> T("r9k"), slow |-> T("slow"),
      subsOnly |-> T("subs-only"), login |-> T("login"), bits |-> T("bits"),
      systemMsg |-> T("system-msg"), emoteSets |-> T("emote-sets"), color |-> T("color"),
      targetUserId |-> T("target-user-id"), targetMsgId |-> T("target-msg-id"),
      banDuration |-> T("ban-duration"), reward |-> T("custom-reward-id"),
      cumulative |-> T("msg-param-cumulative-months"), months |-> T("msg-param-months"),
      streak |-> T("msg-param-streak-months"), plan |-> T("msg-param-sub-plan"),
      planName |-> T("msg-param-sub-plan-name"), viewers |-> T("msg-param-viewerCount"),
      profile |-> T("msg-param-profileImageURL"), recipId |-> T("msg-param-recipient-id"),
      recipLogin |-> T("msg-param-recipient-user-name"),
      recipName |-> T("msg-param-recipient-display-name"),
      giftMonths |-> T("msg-param-gift-months"), massGift |-> T("msg-param-mass-gift-count"),
      senderCount |-> T("msg-param-sender-count"), senderLogin |-> T("msg-param-sender-login"),
      senderName |-> T("msg-param-sender-name"), promoTotal |-> T("msg-param-promo-gift-total"),
      promoName |-> T("msg-param-promo-name"), ritual |-> T("msg-param-ritual-name"),
      threshold |-> T("msg-param-threshold"), paramColor |-> T("msg-param-color"),
      paid |-> T("pinned-chat-paid-amount"), paidCur |-> T("pinned-chat-paid-currency"),
      paidExp |-> T("pinned-chat-paid-exponent"), paidLevel |-> T("pinned-chat-paid-level"),
      paidSys |-> T("pinned-chat-paid-is-system-message")]

Map(o, Op(_)) == IF o = None THEN None ELSE Some(Op(o[1]))
Then(o, Op(_)) == IF o = None THEN None ELSE Op(o[1])
NonEmpty(o) == IF o = None \/ o = Some(<<>>) THEN None ELSE o
Present(os) == \A i \in 1..Len(os) : os[i] # None

User(id, login, name) == [id |-> id, login |-> login, name |-> Unescape(name)]

-----------------------------------------------------------------------------
(* Badges                                                                   *)

WStaff == T("staff")  WTurbo == T("turbo")  WBroadcaster == T("broadcaster")
WModerator == T("moderator")  WSubscriber == T("subscriber")
WOne == T("1")

Entries(s) == LET ps == TLCEval(Split(s, COMMA))
              IN SelectSeq([i \in 1..Len(ps) |-> SplitOnce(ps[i], SLASH)], LAMBDA e : e # <<>>)
SimpleBadge(v, name) == [v |-> v, name |-> name, version |-> WOne, extra |-> None, months |-> None]
Badge(name, version, extra) ==
    CASE name = WStaff -> SimpleBadge("Staff", name)
      [] name = WTurbo -> SimpleBadge("Turbo", name)
      [] name = WBroadcaster -> SimpleBadge("Broadcaster", name)
      [] name = WModerator -> SimpleBadge("Moderator", name)
      [] name = WSubscriber ->
           [v |-> "Subscriber", name |-> name, version |-> version,
            extra |-> Some(OrElse(extra, WOne)),
            months |-> Some(OrElse(Then(extra, ParseU64), WOne))]
      [] OTHER -> [v |-> "Other", name |-> name, version |-> version, extra |-> extra, months |-> None]
Badges(tags) ==
    LET b == Lookup(tags, K.badges) IN
    IF b = None THEN <<>>
    ELSE LET info == Entries(OrElse(Lookup(tags, K.badgeInfo), <<>>))
             es == Entries(b[1])
         IN [i \in 1..Len(es) |-> Badge(es[i][1], es[i][2], Lookup(info, es[i][1]))]

-----------------------------------------------------------------------------
(* Text with the /me wrapper                                                *)

ActionPrefix == <<1>> \o T("ACTION ")
IsAction(t) == /\ StartsWith(t, ActionPrefix)
               /\ Len(t) > Len(ActionPrefix)
               /\ t[Len(t)] = 1
StripAction(t) == IF IsAction(t) THEN SubSeq(t, Len(ActionPrefix) + 1, Len(t) - 1) ELSE t

-----------------------------------------------------------------------------

JoinOrPart(p) ==
    IF p.channel = None \/ p.prefix = None THEN Err
    ELSE IF p.prefix[1].nick = None THEN Err
    ELSE Msg(p.kind, [channel |-> p.channel[1], user |-> p.prefix[1].nick[1]])

Notice(p) ==
    IF p.text = None THEN Err
    ELSE Msg("Notice", [channel |-> p.channel, text |-> p.text[1], id |-> Lookup(p.tags, K.msgId)])

PingPong(p) == Msg(p.kind, [nonce |-> p.text])

ClearMsg(p) ==
    LET tag(k) == Lookup(p.tags, k)
        ts == Then(tag(K.ts), ParseTimestamp)
    IN IF ~Present(<<p.text, p.channel, tag(K.roomId), tag(K.login), tag(K.targetMsgId), ts>>) THEN Err
       ELSE Msg("ClearMsg",
              [channel |-> p.channel[1], channel_id |-> tag(K.roomId)[1], sender |-> tag(K.login)[1],
               target_message_id |-> tag(K.targetMsgId)[1], text |-> StripAction(p.text[1]),
               is_action |-> IsAction(p.text[1]), ts |-> ts[1]])

ClearChat(p) ==
    LET tag(k) == Lookup(p.tags, k)
        ts == Then(tag(K.ts), ParseTimestamp)
        dur == Then(tag(K.banDuration), ParseU64)
        id == tag(K.targetUserId)
    IN IF ~Present(<<p.channel, tag(K.roomId), ts>>) \/ (p.text # None /\ id = None) THEN Err
       ELSE Msg("ClearChat",
              [channel |-> p.channel[1], channel_id |-> tag(K.roomId)[1], ts |-> ts[1],
               target |-> p.text,
               action |-> IF p.text = None THEN [k |-> "Clear"]
                          ELSE IF dur = None THEN [k |-> "Ban", user |-> p.text[1], id |-> id[1]]
                          ELSE [k |-> "TimeOut", user |-> p.text[1], id |-> id[1], secs |-> dur[1]]])

FollowersOnly(v) ==
    LET n == ParseI64(v) IN
    IF n = None THEN None
    ELSE IF IsNegative(n[1]) THEN Some([k |-> "Disabled", secs |-> None])
    ELSE IF IsZero(n[1]) THEN Some([k |-> "Enabled", secs |-> None])
    ELSE Some([k |-> "Enabled", secs |-> Some(MinDigits(MulSmall(n[1], 60), U64Max))])

RoomState(p) ==
    LET tag(k) == Lookup(p.tags, k) IN
    IF ~Present(<<p.channel, tag(K.roomId)>>) THEN Err
    ELSE Msg("RoomState",
           [channel |-> p.channel[1], channel_id |-> tag(K.roomId)[1],
            emote_only |-> Map(tag(K.emoteOnly), ParseBool),
            followers_only |-> Then(tag(K.followersOnly), FollowersOnly),
            r9k |-> Map(tag(K.r9k), ParseBool),
            slow |-> Then(tag(K.slow), ParseU64),
            subs_only |-> Map(tag(K.subsOnly), ParseBool)])

EmoteSets(p) == LET s == Lookup(p.tags, K.emoteSets) IN IF s = None THEN <<>> ELSE Split(s[1], COMMA)
Color(p) == NonEmpty(Lookup(p.tags, K.color))

UserState(p) ==
    LET tag(k) == Lookup(p.tags, k) IN
    IF ~Present(<<p.channel, tag(K.displayName)>>) THEN Err
    ELSE Msg("UserState",
           [channel |-> p.channel[1], name |-> Unescape(tag(K.displayName)[1]), badges |-> Badges(p.tags),
            emote_sets |-> EmoteSets(p), color |-> Color(p)])

GlobalUserState(p) ==
    LET tag(k) == Lookup(p.tags, k) IN
    IF ~Present(<<tag(K.userId), tag(K.displayName)>>) THEN Err
    ELSE Msg("GlobalUserState",
           [id |-> tag(K.userId)[1], name |-> Unescape(tag(K.displayName)[1]), badges |-> Badges(p.tags),
            emote_sets |-> EmoteSets(p), color |-> Color(p)])

WhisperSep == <<SP, COLON>>
Whisper(p) ==
    LET tag(k) == Lookup(p.tags, k)
        nick == IF p.prefix = None THEN None ELSE p.prefix[1].nick
        sep == IF p.params = None THEN 0 ELSE FirstSub(p.params[1], WhisperSep)
    IN IF sep = 0 \/ ~Present(<<nick, tag(K.userId), tag(K.displayName)>>) THEN Err
       ELSE Msg("Whisper",
              [recipient |-> UpTo(p.params[1], sep - 1), text |-> From(p.params[1], sep + 2),
               sender |-> User(tag(K.userId)[1], nick[1], tag(K.displayName)[1]),
               badges |-> Badges(p.tags), color |-> Color(p),
               emotes |-> OrElse(tag(K.emotes), <<>>)])

PaidLevels == << <<"ONE", T("ONE")>>, <<"TWO", T("TWO")>>, <<"THREE", T("THREE")>>, <<"FOUR", T("FOUR")>>,
                 <<"FIVE", T("FIVE")>>, <<"SIX", T("SIX")>>, <<"SEVEN", T("SEVEN")>>,
                 <<"EIGHT", T("EIGHT")>>, <<"NINE", T("NINE")>>, <<"TEN", T("TEN")>> >>
ParseLevel(v) == LET i == SelectInSeq(PaidLevels, LAMBDA e : e[2] = v)
                 IN IF i = 0 THEN None ELSE Some(PaidLevels[i][2])

Reply(tags) ==
    LET tag(k) == Lookup(tags, k) IN
    IF ~Present(<<tag(K.rMsg), tag(K.rtMsg), tag(K.rtLogin), tag(K.rUserId), tag(K.rLogin), tag(K.rName), tag(K.rBody)>>)
    THEN None
    ELSE Some([thread_parent_message_id |-> tag(K.rtMsg)[1], thread_parent_user_login |-> tag(K.rtLogin)[1],
               message_id |-> tag(K.rMsg)[1],
               sender |-> User(tag(K.rUserId)[1], tag(K.rLogin)[1], tag(K.rName)[1]),
               text |-> Unescape(tag(K.rBody)[1])])

PinnedChat(tags) ==
    LET tag(k) == Lookup(tags, k)
        amount == Then(tag(K.paid), ParseI64)
        exp == Then(tag(K.paidExp), ParseI64)
        level == Then(tag(K.paidLevel), ParseLevel)
    IN IF ~Present(<<amount, tag(K.paidCur), exp, level, tag(K.paidSys)>>) THEN None
       ELSE Some([amount |-> amount[1], currency |-> tag(K.paidCur)[1], exponent |-> exp[1],
                  level |-> level[1], is_system |-> ParseBool(tag(K.paidSys)[1])])

Privmsg(p) ==
    LET tag(k) == Lookup(p.tags, k)
        nick == IF p.prefix = None THEN None ELSE p.prefix[1].nick
        ts == Then(tag(K.ts), ParseTimestamp)
    IN IF ~Present(<<p.text, p.channel, tag(K.roomId), tag(K.id), tag(K.userId), nick, tag(K.displayName), ts>>) THEN Err
       ELSE Msg("Privmsg",
              [channel |-> p.channel[1], channel_id |-> tag(K.roomId)[1], msg_id |-> tag(K.msgId),
               id |-> tag(K.id)[1], sender |-> User(tag(K.userId)[1], nick[1], tag(K.displayName)[1]),
               reply |-> Reply(p.tags), pinned |-> PinnedChat(p.tags),
               text |-> StripAction(p.text[1]), is_action |-> IsAction(p.text[1]),
               badges |-> Badges(p.tags), color |-> Color(p), reward |-> NonEmpty(tag(K.reward)),
               bits |-> Then(tag(K.bits), ParseU64), emotes |-> OrElse(tag(K.emotes), <<>>), ts |-> ts[1]])

-----------------------------------------------------------------------------
(* User notices                                                             *)

AnonymousGifter == T("274598607")
N == [sub |-> T("sub"), resub |-> T("resub"), raid |-> T("raid"), subgift |-> T("subgift"),
      anonsubgift |-> T("anonsubgift"), anonmystery |-> T("anonsubmysterygift"),
      mystery |-> T("submysterygift"), upgrade |-> T("giftpaidupgrade"),
      anonupgrade |-> T("anongiftpaidupgrade"), ritual |-> T("ritual"),
      tier |-> T("bitsbadgetier"), announcement |-> T("announcement"), primary |-> T("PRIMARY")]

Promotion(tags) ==
    LET total == Then(Lookup(tags, K.promoTotal), ParseU64)
        name == Lookup(tags, K.promoName)
    IN IF total = None \/ name = None THEN None
       ELSE Some([total |-> total[1], name |-> Unescape(name[1])])

\* <<>> if a required part of the event is missing, else <<event>>
Event(id, tags) ==
    LET tag(k) == Lookup(tags, k)
        num(k) == Then(tag(k), ParseU64)
        anonymous == tag(K.userId) = Some(AnonymousGifter)
        streak == num(K.streak)
    IN CASE id = N.sub \/ id = N.resub ->
              IF ~Present(<<num(K.cumulative), tag(K.plan), tag(K.planName)>>) THEN None
              ELSE Some([k |-> "SubOrResub", is_resub |-> id = N.resub,
                         cumulative_months |-> num(K.cumulative)[1],
                         streak_months |-> IF streak = Some(<<48>>) THEN None ELSE streak,
                         sub_plan |-> tag(K.plan)[1], sub_plan_name |-> Unescape(tag(K.planName)[1])])
         [] id = N.raid ->
              IF ~Present(<<num(K.viewers), tag(K.profile)>>) THEN None
              ELSE Some([k |-> "Raid", viewer_count |-> num(K.viewers)[1], profile |-> tag(K.profile)[1]])
         [] id = N.subgift \/ id = N.anonsubgift ->
              IF ~Present(<<num(K.months), tag(K.recipId), tag(K.recipLogin), tag(K.recipName), tag(K.plan),
                            tag(K.planName), num(K.giftMonths)>>) THEN None
              ELSE Some([k |-> "SubGift", cumulative_months |-> num(K.months)[1],
                         recipient |-> User(tag(K.recipId)[1], tag(K.recipLogin)[1], tag(K.recipName)[1]),
                         sub_plan |-> tag(K.plan)[1], sub_plan_name |-> Unescape(tag(K.planName)[1]),
                         num_gifted_months |-> num(K.giftMonths)[1]])
         [] id = N.anonmystery \/ (id = N.mystery /\ anonymous) ->
              IF ~Present(<<num(K.massGift), tag(K.plan)>>) THEN None
              ELSE Some([k |-> "AnonSubMysteryGift", count |-> num(K.massGift)[1], sub_plan |-> tag(K.plan)[1]])
         [] id = N.mystery /\ ~anonymous ->
              IF ~Present(<<num(K.massGift), num(K.senderCount), tag(K.plan)>>) THEN None
              ELSE Some([k |-> "SubMysteryGift", count |-> num(K.massGift)[1],
                         sender_total_gifts |-> num(K.senderCount)[1], sub_plan |-> tag(K.plan)[1]])
         [] id = N.upgrade ->
              IF ~Present(<<tag(K.senderLogin), tag(K.senderName)>>) THEN None
              ELSE Some([k |-> "GiftPaidUpgrade", gifter_login |-> tag(K.senderLogin)[1],
                         gifter_name |-> Unescape(tag(K.senderName)[1]), promotion |-> Promotion(tags)])
         [] id = N.anonupgrade -> Some([k |-> "AnonGiftPaidUpgrade", promotion |-> Promotion(tags)])
         [] id = N.ritual ->
              IF tag(K.ritual) = None THEN None ELSE Some([k |-> "Ritual", name |-> tag(K.ritual)[1]])
         [] id = N.tier ->
              IF num(K.threshold) = None THEN None ELSE Some([k |-> "BitsBadgeTier", tier |-> num(K.threshold)[1]])
         [] id = N.announcement ->
              Some([k |-> "Announcement", color |-> OrElse(tag(K.paramColor), N.primary)])
         [] OTHER -> Some([k |-> "Unknown"])

\* Events which never have a sender.
Anonymous(id, ev, tags) ==
    \/ id \in {N.anonsubgift, N.anonmystery, N.anonupgrade}
    \/ id \in {N.subgift, N.mystery} /\ Lookup(tags, K.userId) = Some(AnonymousGifter)
    \/ ev.k = "Unknown"

UserNotice(p) ==
    LET tag(k) == Lookup(p.tags, k)
        id == tag(K.msgId)
        ev == IF id = None THEN None ELSE Event(id[1], p.tags)
        ts == Then(tag(K.ts), ParseTimestamp)
        anon == Anonymous(id[1], ev[1], p.tags)
    IN IF ~Present(<<id, ev, p.channel, tag(K.roomId), tag(K.id), ts>>) THEN Err
       ELSE IF ~anon /\ ~Present(<<tag(K.userId), tag(K.login), tag(K.displayName)>>) THEN Err
       ELSE Msg("UserNotice",
              [channel |-> p.channel[1], channel_id |-> tag(K.roomId)[1],
               sender |-> IF anon THEN None
                          ELSE Some(User(tag(K.userId)[1], tag(K.login)[1], tag(K.displayName)[1])),
               text |-> p.text, system_message |-> Map(NonEmpty(tag(K.systemMsg)), Unescape),
               event |-> ev[1], event_id |-> id[1], badges |-> Badges(p.tags),
               emotes |-> OrElse(tag(K.emotes), <<>>), color |-> Color(p),
               message_id |-> tag(K.id)[1], ts |-> ts[1]])

-----------------------------------------------------------------------------

Typed(p) ==
    IF ~p.ok THEN Err
    ELSE CASE p.kind = "ClearChat" -> ClearChat(p)
           [] p.kind = "ClearMsg" -> ClearMsg(p)
           [] p.kind = "GlobalUserState" -> GlobalUserState(p)
           [] p.kind \in {"Join", "Part"} -> JoinOrPart(p)
           [] p.kind = "Notice" -> Notice(p)
           [] p.kind \in {"Ping", "Pong"} -> PingPong(p)
           [] p.kind = "Privmsg" -> Privmsg(p)
           [] p.kind = "Reconnect" -> Msg("Reconnect", <<>>)
           [] p.kind = "RoomState" -> RoomState(p)
           [] p.kind = "UserNotice" -> UserNotice(p)
           [] p.kind = "UserState" -> UserState(p)
           [] p.kind = "Whisper" -> Whisper(p)
           [] OTHER -> Msg("Other", [raw |-> p.raw])
=============================================================================

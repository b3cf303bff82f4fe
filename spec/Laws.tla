-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* What follows from the definitions of Irc, Typed, Client and Bypass,     *)
(* checked for every input of a small world: the guarantees a user relies  *)
(* on, as opposed to the rules they are computed from.                     *)
(*                                                                         *)
(* A state is an input, grown one element at a time.                       *)
(***************************************************************************)
EXTENDS Client, Bypass, Json, IOUtils

CONSTANTS Law, Letters, MaxLen

VARIABLES grown, ghost
vars == <<grown, ghost>>

-----------------------------------------------------------------------------
(* Texts, one letter at a time.                                             *)

Texts == /\ Len(grown) < MaxLen
         /\ \E c \in Letters : grown' = Append(grown, c)
         /\ UNCHANGED ghost

\* C07, C20: what is escaped reads back; only texts with an escape change; the parts are independent.
EscapeLaw ==
    /\ TCOMMA \notin ToSet(grown) => Unescape(Escape(grown)) = grown
    /\ ~\E c \in ToSet(Escape(grown)) : c \in {SEMI, SP, CR, LF}
    /\ ~NeedsUnescape(grown) => Unescape(grown) = grown
    /\ Len(Unescape(grown)) <= Len(grown)
    /\ TCOMMA \notin ToSet(Unescape(grown)) \/ \E n \in 1..(Len(grown) - 1) : grown[n] = BSL
    \* an even run of backslashes ends no part in the middle of an escape
    /\ \A n \in 0..Len(grown) :
          LET a == UpTo(grown, n)
              run == Cardinality({k \in 1..n : \A j \in k..n : grown[j] = BSL})
          IN run % 2 = 0 => Unescape(grown) = Unescape(a) \o Unescape(From(grown, n + 1))

\* C20, C24: a text in each place of each command.
Say(x, reply, nonce) == [op |-> "privmsg", channel |-> T("#c"), text |-> x, reply |-> reply, nonce |-> nonce]
Clean(a) == LET b == Bytes(a) IN
    /\ EndsWith(b, CRLF)
    /\ ~HasBreak(UpTo(b, Len(b) - 2))
Line(a) == Parse(UpTo(Bytes(a), Len(Bytes(a)) - 2))
Whole(p, kind, chan, text) == p.ok /\ p.kind = kind /\ p.channel = chan /\ p.prefix = None /\ p.text = text
\* Texts in which a colon begins nothing else.
SayLaw ==
    LET x == grown IN
    /\ \A reply \in {None, Some(x), Some(T("r"))}, nonce \in {None, Some(x), Some(T("n"))} :
          LET a == Say(T("hi"), reply, nonce) p == Line(a) IN
          /\ ~Refused(a) /\ Clean(a)
          /\ Whole(p, "Privmsg", Some(T("#c")), Some(T("hi")))
          /\ LET r == Lookup(p.tags, K.rMsg) n == Lookup(p.tags, T("client-nonce")) IN
             /\ Len(p.tags) = Cardinality({t \in {1, 2} : (t = 1 /\ reply # None) \/ (t = 2 /\ nonce # None)})
             /\ (r = None) = (reply = None) /\ (r # None => Unescape(r[1]) = reply[1])
             /\ (n = None) = (nonce = None) /\ (n # None => Unescape(n[1]) = nonce[1])
    /\ LET a == Say(x, Some(T("r")), None) IN
       IF HasBreak(x) THEN Refused(a)
       ELSE ~Refused(a) /\ Clean(a) /\ Whole(Line(a), "Privmsg", Some(T("#c")), Some(x))
    /\ LET a == [op |-> "join", channel |-> x] IN
       IF HasBreak(x) THEN Refused(a)
       ELSE /\ ~Refused(a) /\ Clean(a) /\ Line(a).kind = "Join"
            /\ SP \notin ToSet(x) => Line(a).channel = Some(Channel(x)) /\ Line(a).params = None
            /\ Channel(Channel(x)) = Channel(x)
    /\ \A y \in {T("a"), T("#b"), <<>>} :
       LET a == [op |-> "join_all", channels |-> <<x, y>>] IN
       IF HasBreak(x) THEN Refused(a)
       ELSE /\ ~Refused(a) /\ Clean(a)
            /\ (SP \notin ToSet(x) /\ COMMA \notin ToSet(x)) => Split(Line(a).channel[1], COMMA) = <<Channel(x), Channel(y)>>
    /\ LET a == [op |-> "send_raw", data |-> x] IN
       IF Len(x) >= 2 /\ x[Len(x) - 1] = CR /\ x[Len(x)] = LF THEN ~Refused(a) /\ Bytes(a) = x ELSE Refused(a)
PingLaw ==
    LET x == grown IN
    /\ LET a == [op |-> "ping", nonce |-> x] IN
       IF HasBreak(x) THEN Refused(a)
       ELSE ~Refused(a) /\ Clean(a) /\ Line(a).kind = "Ping" /\ PingNonce(UpTo(Bytes(a), Len(Bytes(a)) - 2)) = Some(x)
    \* the answer to any line which is a PING
    /\ \A line \in {T("PING") \o x, T(":h PING ") \o x, T("PING :") \o x, T("PING x") \o x, T("@a=b PING #c ") \o x} :
          ~HasBreak(line) /\ Parse(line).ok /\ Parse(line).kind = "Ping" =>
          LET a == [op |-> "pong", line |-> line]
              back == UpTo(Bytes(a), Len(Bytes(a)) - 2)
          IN ~Refused(a) /\ Clean(a) /\ Parse(back).kind = "Pong" /\ Typed(Parse(back)).f.nonce = PingNonce(line)

-----------------------------------------------------------------------------
(* C14: sequences of builder calls.                                         *)

SetCred(l, t) == [set |-> "credentials", login |-> l, token |-> t]
SetTime(n) == [set |-> "timeout", timeout |-> n]
SetBack(t, i, m, x) == [set |-> "backoff", tries |-> t, init |-> i, mult |-> m, max |-> x]
BuilderCalls == {SetCred(T("a"), None), SetCred(T("b"), Some(T("t"))), SetTime(0), SetTime(7), SetBack(None, 1, 2, 3), SetBack(Some(0), 4, 5, 6)}
Built1 == /\ Len(grown) < MaxLen
          /\ \E c \in BuilderCalls : grown' = Append(grown, c)
          /\ UNCHANGED ghost
LastOf(set) == LET I == {n \in DOMAIN grown : grown[n].set = set} IN IF I = {} THEN 0 ELSE CHOOSE n \in I : \A k \in I : k <= n
Anon == T("justinfan12345")
BuilderLaw ==
    LET c == Built(grown, Anon) cr == LastOf("credentials") ti == LastOf("timeout") ba == LastOf("backoff") IN
    /\ IF cr = 0 THEN c.login = Anon /\ c.token = None ELSE c.login = grown[cr].login /\ c.token = grown[cr].token
    /\ c.timeout = (IF ti = 0 THEN 30000 ELSE grown[ti].timeout)
    /\ <<c.tries, c.init, c.mult, c.max>> =
          (IF ba = 0 THEN <<Some(8), 1000, 3, 12000>> ELSE <<grown[ba].tries, grown[ba].init, grown[ba].mult, grown[ba].max>>)
    /\ LoginGiven(grown) = (cr # 0)
    /\ AnonLogin(Anon) /\ ~AnonLogin(T("justinfan09999")) /\ ~AnonLogin(T("justinfan99999")) /\ AnonLogin(T("justinfan10000"))
    \* the handshake says who
    /\ LET h == Hello(c) ls == Split(h, LF) IN
       /\ Len(ls) = 4 /\ ls[4] = <<>> /\ \A n \in 1..3 : EndsWith(ls[n], <<CR>>)
       /\ ls[3] = T("NICK ") \o c.login \o <<CR>>
       /\ ls[2] = T("PASS oauth:") \o (IF c.token = None THEN T("just_a_lil_guy") ELSE c.token[1]) \o <<CR>>
       /\ \A n \in DOMAIN h : FromCfg(c, n, h[n]) =>
             n > Len(Capabilities) + 2 + Len(T("PASS "))

-----------------------------------------------------------------------------
(* C16: the delays of a reconnect, for settings of every size.              *)

Delays(i, m, x, n) == LET RECURSIVE d(_)
                          d(k) == IF k = 1 THEN i ELSE NextDelay(d(k - 1), m, x)
                      IN [k \in 1..n |-> d(k)]
Least(a, b) == IF a < b THEN a ELSE b
Grow == /\ Len(grown) < 3
        /\ \E c \in Letters : grown' = Append(grown, c)
        /\ UNCHANGED ghost
BackoffLaw == Len(grown) = 3 =>
    LET i == grown[1] m == grown[2] x == grown[3] ds == Delays(i, m, x, 6) IN
    /\ ds[1] = i
    /\ \A k \in 2..6 : ds[k] <= x /\ ds[k] = Least(x, ds[k - 1] * m)
    /\ (m >= 1 /\ i <= x) => \A k \in 2..6 : ds[k] >= ds[k - 1]

-----------------------------------------------------------------------------
(* C25: any program with bypasses.  ghost: per slot, the values since the   *)
(* state it was created with.                                               *)

Gets == Len(grown) < MaxLen /\
    \/ \E n \in DOMAIN ghost.b.slots :
          LET v == Value(ghost.b.slots[n]) IN
          /\ ghost' = [b |-> BypassStep(ghost.b, [e |-> "get", n |-> n, v |-> v]),
                       vals |-> [ghost.vals EXCEPT ![n] = Append(@, v)]]
          /\ grown' = Append(grown, n)
    \/ \E n \in DOMAIN ghost.b.slots :
          /\ ghost' = [b |-> BypassStep(ghost.b, [e |-> "copy", n |-> n]), vals |-> Append(ghost.vals, ghost.vals[n])]
          /\ grown' = Append(grown, -n)
    \/ /\ ghost' = [b |-> BypassStep(ghost.b, [e |-> "new", n |-> 0]), vals |-> Append(ghost.vals, <<>>)]
       /\ grown' = Append(grown, 0)
BypassLaw ==
    /\ ghost.b.bad = {}
    /\ \A n \in DOMAIN ghost.vals : LET v == ghost.vals[n] IN
          \A k \in DOMAIN v : /\ v[k] = IF k % 2 = 1 THEN <<>> ELSE Suffix
                              /\ k > 1 => T("x") \o v[k] # T("x") \o v[k - 1]
    /\ Suffix[1] = SP /\ Utf8(Suffix) /\ ~HasBreak(Suffix) /\ SEMI \notin ToSet(Suffix)

-----------------------------------------------------------------------------
(* C18: which byte sequences are UTF-8, against Unicode's table 3-7.        *)

Cont == 128..191
Seqs(s) ==   \* all ways to cut s into well-formed sequences
    LET one(b) == Len(b) = 1 /\ b[1] \in 0..127
        two(b) == Len(b) = 2 /\ b[1] \in 194..223 /\ b[2] \in Cont
        three(b) == /\ Len(b) = 3 /\ b[3] \in Cont
                    /\ \/ (b[1] = 224 /\ b[2] \in 160..191)
                       \/ (b[1] \in 225..236 /\ b[2] \in Cont)
                       \/ (b[1] = 237 /\ b[2] \in 128..159)
                       \/ (b[1] \in 238..239 /\ b[2] \in Cont)
        four(b) == /\ Len(b) = 4 /\ b[3] \in Cont /\ b[4] \in Cont
                   /\ \/ (b[1] = 240 /\ b[2] \in 144..191)
                      \/ (b[1] \in 241..243 /\ b[2] \in Cont)
                      \/ (b[1] = 244 /\ b[2] \in 128..143)
        RECURSIVE cut(_)
        cut(b) == b = <<>> \/ \E n \in 1..4 : n <= Len(b) /\ LET h == UpTo(b, n) IN (one(h) \/ two(h) \/ three(h) \/ four(h)) /\ cut(From(b, n + 1))
    IN cut(s)
Utf8Law == Utf8(grown) = Seqs(grown)

-----------------------------------------------------------------------------
(* Typed messages: what an irrelevant change of a line leaves alone.        *)
(* `grown` is <<number of a line, position, change>>.                       *)

Lines == ndJsonDeserialize(IOEnv.LAWS_LINES)
Extra == T("zz-unknown=1")
Insert(ps, at, extra) == Joined([n \in 1..(Len(ps) + 1) |-> IF n < at THEN ps[n] ELSE IF n = at THEN extra ELSE ps[n - 1]], SEMI)
Keyed(s) == s # <<>> /\ EQS \in ToSet(s)
LineInit == \E n \in DOMAIN Lines : \E at \in 1..24 : grown = <<n, at>> /\ ghost = 0
FrameLaw ==
    LET s == Lines[grown[1]].s at == grown[2] IN
    IF ~HasTags(s) \/ ~Parse(s).ok THEN TRUE
    ELSE LET ps == Split(TagBody(s), SEMI)
             p == Parse(s)
             t == Typed(p)
             rest == From(s, Pos(s, SP, 2))
             with(x) == Typed(Parse(<<AT>> \o Insert(ps, at, x) \o rest))
         IN (at <= Len(ps) + 1 /\ \A n \in DOMAIN ps : Keyed(ps[n])) =>
            \* an unknown tag anywhere
            /\ t.kind # "Other" => with(Extra) = t
            \* a later tag with the same key and another value
            /\ (at = Len(ps) + 1 /\ t.kind # "Other") =>
                  \A n \in DOMAIN p.tags : with(p.tags[n][1] \o T("=other")) = t
            \* one optional tag less never makes a message of another kind, and a required one makes it invalid
            /\ (at <= Len(ps) /\ t.kind # "Other") =>
                  LET less == SelectSeq([n \in DOMAIN ps |-> IF n = at THEN <<>> ELSE ps[n]], LAMBDA x : x # <<>>)
                      u == Typed(Parse((IF less = <<>> THEN <<>> ELSE <<AT>> \o Joined(less, SEMI) \o <<SP>>) \o From(rest, 2)))
                  IN u.kind \in {t.kind, "Err"} \/ t.kind = "Err"

-----------------------------------------------------------------------------
Init == CASE Law = "lines" -> LineInit
          [] Law = "bypass" -> grown = <<>> /\ ghost = [b |-> BypassStart, vals |-> <<<<>>>>]
          [] OTHER -> grown = <<>> /\ ghost = 0
Next == CASE Law = "lines" -> FALSE /\ UNCHANGED vars
          [] Law = "bypass" -> Gets
          [] Law = "builder" -> Built1
          [] Law = "backoff" -> Grow
          [] OTHER -> Texts
Spec == Init /\ [][Next]_vars
Holds == CASE Law = "escape" -> EscapeLaw
           [] Law = "say" -> SayLaw
           [] Law = "ping" -> PingLaw
           [] Law = "builder" -> BuilderLaw
           [] Law = "backoff" -> BackoffLaw
           [] Law = "bypass" -> BypassLaw
           [] Law = "utf8" -> Utf8Law
           [] Law = "lines" -> FrameLaw
=============================================================================

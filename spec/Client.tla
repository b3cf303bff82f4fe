------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The client as a reactive state machine.                                 *)
(*                                                                         *)
(* A step is an event at the boundary of the client.  Events of the        *)
(* environment:                                                            *)
(*   build    the configuration given to the builder                       *)
(*   call     the program starts an operation (and polls it at once)       *)
(*   cancel   the program drops the pending operation                      *)
(*   openres  the pending attempt to open a connection has a result        *)
(*   rx, eof, rerr        bytes, end of stream, read error on a connection *)
(*   win, werr, gate, ferr   what a connection accepts and flushes         *)
(*   tick     time passes                                                  *)
(* and of the client:                                                      *)
(*   open     it starts to open a connection                               *)
(*   w, we    a write was accepted, or met an error                        *)
(*   f, fe    a flush was completed, or met an error                       *)
(*   ret      the operation returned                                       *)
(*   block    it was polled and waits: nothing it could do is left         *)
(*                                                                         *)
(* Step(s, e) is the state after event e in state s.  The client may do e  *)
(* iff Step(s, e).bad = s.bad: `bad` collects what an event breaks, as     *)
(* pairs of a property and a reason.  After a broken rule the state        *)
(* follows the client, so that other rules can still be judged.            *)
(*                                                                         *)
(* Model checking (MC*.tla) lets the client do everything that breaks no   *)
(* rule in an arbitrary environment, and checks the properties, stated     *)
(* over the history, on that.  Conformance (ClientTrace.tla) feeds         *)
(* recorded events to the same Step.                                       *)
(*                                                                         *)
(* Texts are sequences of bytes; times are milliseconds.                   *)
(***************************************************************************)
EXTENDS Typed, FiniteSets

\* How long one reply of the handshake is awaited.
ReplyTimeout == 5000

-----------------------------------------------------------------------------
(* Configuration                                                            *)

\* A limit or a token is <<>> or <<value>>.
DefaultCfg(anon) == [login |-> anon, token |-> None, timeout |-> 30000,
                     tries |-> Some(8), init |-> 1000, mult |-> 3, max |-> 12000]
Apply(cfg, call) ==
    CASE call.set = "credentials" -> [cfg EXCEPT !.login = call.login, !.token = call.token]
      [] call.set = "timeout" -> [cfg EXCEPT !.timeout = call.timeout]
      [] call.set = "backoff" -> [cfg EXCEPT !.tries = call.tries, !.init = call.init,
                                              !.mult = call.mult, !.max = call.max]
Built(calls, anon) == FoldLeft(LAMBDA cfg, call : Apply(cfg, call), DefaultCfg(anon), calls)
LoginGiven(calls) == \E n \in DOMAIN calls : calls[n].set = "credentials"
AnonLogin(l) == /\ StartsWith(l, T("justinfan")) /\ Len(l) = 14
                /\ LET d == From(l, 10) IN AllDigits(d) /\ d[1] # 48 /\ DigitsLE(d, T("99998"))
\* As much of the login as was seen, if the handshake was cut off in it.
AnonPart(l) == StartsWith(T("justinfan"), l) \/
               (StartsWith(l, T("justinfan")) /\ Len(l) <= 14 /\ AllDigits(From(l, 10)) /\ l[10] # 48)

-----------------------------------------------------------------------------
(* What the client writes                                                   *)

CRLF == <<CR, LF>>
Capabilities == T("CAP REQ :twitch.tv/commands twitch.tv/tags twitch.tv/membership")
Password(cfg) == LET t == OrElse(cfg.token, T("just_a_lil_guy"))
                 IN IF StartsWith(t, T("oauth:")) THEN t ELSE T("oauth:") \o t
Hello(cfg) == Capabilities \o CRLF \o T("PASS ") \o Password(cfg) \o CRLF \o T("NICK ") \o cfg.login \o CRLF
\* Does byte n of Hello depend on the configuration, if x was sent instead?
FromCfg(cfg, n, x) ==
    LET p == Len(Capabilities) + 2 + 5
        k == p + Len(Password(cfg)) + 2 + 5
    IN \/ n > p /\ n <= p + Len(Password(cfg))
       \/ n = p + Len(Password(cfg)) + 1 /\ x \notin {CR, LF}
       \/ n > k

HasBreak(s) == \E n \in DOMAIN s : s[n] \in {CR, LF}
Channel(c) == IF c # <<>> /\ c[1] = HASH THEN c ELSE <<HASH>> \o c
Joined(parts, c) == IF parts = <<>> THEN <<>>
                    ELSE FoldLeft(LAMBDA acc, p : acc \o <<c>> \o p, parts[1], Tail(parts))
TagPart(key, v) == IF v = None THEN <<>> ELSE << key \o <<EQS>> \o Escape(v[1]) >>
MessageTags(a) == TagPart(T("reply-parent-msg-id"), a.reply) \o TagPart(T("client-nonce"), a.nonce)
PingNonce(line) == Typed(Parse(line)).f.nonce

\* The line an operation writes, without its end, as parts which must not contain a line break.
Command(a) ==
    CASE a.op = "privmsg" -> << IF MessageTags(a) = <<>> THEN <<>>
                                ELSE <<AT>> \o Joined(MessageTags(a), SEMI) \o <<SP>>,
                                T("PRIVMSG "), a.channel, T(" :"), a.text >>
      [] a.op = "ping" -> << T("PING :"), a.nonce >>
      [] a.op = "pong" -> LET n == PingNonce(a.line)
                          IN IF n = None THEN <<T("PONG")>> ELSE <<T("PONG :"), n[1]>>
      [] a.op = "join" -> << T("JOIN "), Channel(a.channel) >>
      [] a.op = "join_all" -> << T("JOIN "), Joined([n \in DOMAIN a.channels |-> Channel(a.channels[n])], COMMA) >>
Refused(a) == IF a.op = "send_raw" THEN ~EndsWith(a.data, CRLF)
              ELSE \E n \in DOMAIN Command(a) : HasBreak(Command(a)[n])
Bytes(a) == IF a.op = "send_raw" THEN a.data
            ELSE FoldLeft(LAMBDA acc, p : acc \o p, <<>>, Command(a)) \o CRLF
Sends == {"privmsg", "ping", "pong", "join", "join_all", "send_raw"}

-----------------------------------------------------------------------------
(* What the client reads                                                    *)

\* Is a sequence of bytes UTF-8?  `left` continuation bytes are due, the first in lo..hi.
Utf8(s) ==
    LET fresh(left, lo, hi) == [ok |-> TRUE, left |-> left, lo |-> lo, hi |-> hi]
        bad == [ok |-> FALSE, left |-> 0, lo |-> 0, hi |-> 0]
        step(acc, b) ==
            IF ~acc.ok THEN acc
            ELSE IF acc.left > 0 THEN IF b >= acc.lo /\ b <= acc.hi THEN fresh(acc.left - 1, 128, 191) ELSE bad
            ELSE CASE b < 128 -> fresh(0, 0, 0)
                   [] b >= 194 /\ b <= 223 -> fresh(1, 128, 191)
                   [] b = 224 -> fresh(2, 160, 191)
                   [] b = 237 -> fresh(2, 128, 159)
                   [] b >= 225 /\ b <= 239 -> fresh(2, 128, 191)
                   [] b = 240 -> fresh(3, 144, 191)
                   [] b >= 241 /\ b <= 243 -> fresh(3, 128, 191)
                   [] b = 244 -> fresh(3, 128, 143)
                   [] OTHER -> bad
        r == FoldLeft(step, fresh(0, 0, 0), s)
    IN r.ok /\ r.left = 0

\* The result of an operation.
Res(k) == [k |-> k, io |-> "", d |-> <<>>, disc |-> FALSE]
ResIo(k, kind) == [Res(k) EXCEPT !.io = kind]
ResText(k, d) == [Res(k) EXCEPT !.d = d]
NoRes == Res("")

Disconnects == {"UnexpectedEof", "ConnectionAborted", "ConnectionReset", "TimedOut"}
\* What a line is for the program.
LineResult(line) == IF ~Utf8(line) THEN ResIo("Io", "InvalidData")
                    ELSE IF Parse(line).ok THEN ResText("msg", line)
                    ELSE ResText("Parse", line)
StripCr(line) == IF line # <<>> /\ line[Len(line)] = CR THEN UpTo(line, Len(line) - 1) ELSE line

\* The next result of reading from connection c: NoRes if there is none yet; and what is left.
NextRead(c) ==
    LET p == Pos(c.inq, LF, 1)
    IN IF c.end = "unspec" THEN [res |-> Res("any"), c |-> c]
       ELSE IF p # 0 THEN [res |-> LineResult(StripCr(UpTo(c.inq, p - 1))), c |-> [c EXCEPT !.inq = From(@, p + 1)]]
       ELSE IF c.end = "" THEN [res |-> NoRes, c |-> c]
       ELSE IF c.end = "eof"
            THEN IF c.inq = <<>> THEN [res |-> [Res("Closed") EXCEPT !.disc = TRUE], c |-> c]
                 ELSE [res |-> LineResult(c.inq), c |-> [c EXCEPT !.inq = <<>>]]
       ELSE [res |-> [ResIo("Io", c.end) EXCEPT !.disc = c.end \in Disconnects],
             c |-> [c EXCEPT !.end = IF c.inq = <<>> THEN "eof" ELSE "unspec"]]

\* How the handshake judges the reply to CAP REQ, and the one after: Res("go"), Res("ok") or an error.
JudgeFirst(r) ==
    IF r.k # "msg" THEN r
    ELSE LET m == Parse(r.d) IN
         IF m.kind # "Capability" THEN ResText("Welcome", r.d)
         ELSE IF m.params # None /\ StartsWith(m.params[1], T("* ACK")) THEN Res("go") ELSE Res("Auth")
JudgeSecond(r) ==
    IF r.k # "msg" THEN r
    ELSE LET m == Parse(r.d) IN
         CASE m.kind = "RplWelcome" -> Res("ok")
           [] m.kind = "Notice" -> IF m.params # None /\ Occurs(m.params[1], T("authentication failed"))
                                   THEN Res("Auth") ELSE ResText("Notice", r.d)
           [] OTHER -> ResText("Welcome", r.d)
\* Errors of reading, as errors of connecting.
AsConnect(r) == [r EXCEPT !.disc = FALSE,
                          !.k = CASE r.k = "Io" -> "Read.Io" [] r.k = "Parse" -> "Read.Parse"
                                  [] r.k = "Closed" -> "Read.Closed" [] OTHER -> r.k]

-----------------------------------------------------------------------------
(* State                                                                    *)

NewConn == [inq |-> <<>>, end |-> "",                  \* to be read; "", "eof", an error or "unspec"
            win |-> -1, werr |-> "",                   \* bytes it still accepts (-1: any); error after that
            gate |-> TRUE, ferr |-> "",                \* may a flush complete; its error
            out |-> <<>>, fl |-> 0,                    \* accepted so far; how much of it was flushed
            up |-> FALSE]                              \* the handshake succeeded
Start == [now |-> 0, cfg |-> DefaultCfg(<<>>), alive |-> FALSE,
          op |-> "none", ph |-> "idle",
          conns |-> <<>>, cur |-> 0,
          want |-> NoRes,                              \* the result the operation must return now
          left |-> <<>>, done |-> 0, chunks |-> 0,     \* still to be written, already written, in how many pieces
          res |-> NoRes, ddl |-> 0, reply |-> 0,       \* pending result of opening; deadlines
          wake |-> 0, tries |-> None, delay |-> 0, cause |-> NoRes, opens |-> 0,
          bad |-> {}, at |-> 0]

\* (none after a run that broke the rules)
Conn(s) == IF s.cur = 0 THEN NewConn ELSE s.conns[s.cur]
Break(s, props, why) == [s EXCEPT !.bad = @ \cup {<<p, s.at, why>> : p \in props}]
BreakIf(s, cond, props, why) == IF cond THEN Break(s, props, why) ELSE s

Connecting(s) == s.op \in {"connect", "reconnect"}
\* The next attempt to reconnect, or the end.
Retry(s) == IF s.tries # None /\ s.tries[1] = 0
            THEN [s EXCEPT !.want = s.cause, !.ph = "end"]
            ELSE [s EXCEPT !.ph = "sleep", !.wake = s.now + s.delay]
NextDelay(delay, mult, max) == IF mult = 0 THEN 0
                               ELSE IF delay > max \div mult THEN max ELSE delay * mult
Fail(s, r) == [s EXCEPT !.want = r, !.ph = "end"]
\* An attempt failed with an error which a reconnect survives.
FailSoft(s, r) == IF s.op = "reconnect" THEN Retry([s EXCEPT !.cause = r]) ELSE Fail(s, r)

EnterHello(s) == [s EXCEPT !.ph = "hello", !.cur = Len(s.conns), !.left = Hello(s.cfg), !.done = 0, !.chunks = 0,
                           !.res = NoRes, !.ddl = s.now + s.cfg.timeout]
Unread(s, c) == IF s.cur = 0 THEN s ELSE [s EXCEPT !.conns[s.cur] = c]

\* Everything the client must do by itself when it is polled now.
RECURSIVE Settle(_)
Settle(s) ==
    CASE s.ph = "open" /\ s.res.k = "ok" -> Settle(EnterHello(s))
      [] s.ph = "open" /\ s.res.k = "Open" -> FailSoft(s, s.res)
      [] s.ph = "first" /\ NextRead(Conn(s)).res.k # "" ->
            LET n == NextRead(Conn(s))
                j == JudgeFirst(n.res)
            IN IF j.k = "go" THEN Settle([Unread(s, n.c) EXCEPT !.ph = "second", !.reply = s.now + ReplyTimeout])
               ELSE Fail(Unread(s, n.c), AsConnect(j))
      [] s.ph = "second" /\ NextRead(Conn(s)).res.k # "" ->
            LET n == NextRead(Conn(s)) IN Fail(Unread(s, n.c), AsConnect(JudgeSecond(n.res)))
      [] s.ph = "recv" /\ NextRead(Conn(s)).res.k # "" ->
            LET n == NextRead(Conn(s)) IN Fail(Unread(s, n.c), n.res)
      [] OTHER -> s

Overdue(s) == \/ s.ph \in {"open", "hello", "first", "second"} /\ s.now >= s.ddl
              \/ s.ph \in {"first", "second"} /\ s.now >= s.reply

-----------------------------------------------------------------------------
(* The environment                                                          *)

Build(s, e) == [s EXCEPT !.cfg = Built(e.calls, e.anon),
                         !.bad = IF ~LoginGiven(e.calls) /\ ~(IF e.full THEN AnonLogin(e.anon) ELSE AnonPart(e.anon))
                                 THEN {<<"C14", s.at, "anonymous login">>} ELSE {}]
Begin(s, e) ==
    LET t == [s EXCEPT !.op = e.op, !.want = NoRes, !.left = <<>>, !.done = 0, !.chunks = 0, !.opens = 0]
    IN CASE e.op = "connect" -> [t EXCEPT !.ph = "start"]
         [] e.op = "reconnect" -> Retry([t EXCEPT !.tries = s.cfg.tries, !.delay = s.cfg.init, !.cause = Res("Timeout")])
         [] e.op = "recv" -> [t EXCEPT !.ph = "recv"]
         [] OTHER -> IF Refused(e) THEN Fail(t, Res("Invalid"))
                     ELSE [t EXCEPT !.ph = "send", !.left = Bytes(e)]
Leave(s, alive) == [s EXCEPT !.op = "none", !.ph = "idle", !.want = NoRes, !.res = NoRes, !.left = <<>>,
                             !.alive = alive, !.cur = IF alive THEN @ ELSE 0]
Cancel(s) == Leave(s, IF s.op = "connect" THEN FALSE ELSE s.alive)
OpenResult(s, e) == IF e.k = "ok" THEN [s EXCEPT !.res = Res("ok"), !.conns = Append(@, NewConn)]
                    ELSE [s EXCEPT !.res = ResIo("Open", e.k)]

-----------------------------------------------------------------------------
(* The client                                                               *)

Open(s0) ==
    LET s == Settle(s0)
        due == s.ph = "start" \/ (s.ph = "sleep" /\ s.now >= s.wake)
        early == s.ph = "sleep" /\ s.now < s.wake
        t == BreakIf(BreakIf(s, early, {"C16", "C14"}, "attempt before its delay is over"),
                     ~due /\ ~early,
                     IF s.op # "reconnect" THEN {"C15"} ELSE {"C16"} \cup (IF s.tries = Some(0) THEN {"C14"} ELSE {}),
                 "attempt which is not due")
    IN [t EXCEPT !.ph = "open", !.res = NoRes, !.want = NoRes, !.ddl = s.now + s.cfg.timeout, !.opens = @ + 1,
                 !.tries = IF s.ph = "sleep" /\ @ # None THEN Some(@[1] - 1) ELSE @,
                 !.delay = IF s.ph = "sleep" THEN NextDelay(@, s.cfg.mult, s.cfg.max) ELSE @]

HelloProps(s, n, x) == {"C15"} \cup (IF s.op = "reconnect" THEN {"C19"} ELSE {})
                            \cup (IF FromCfg(s.cfg, n, x) THEN {"C14"} ELSE {})
Took(c, d) == [c EXCEPT !.out = @ \o d, !.win = IF @ = -1 THEN @ ELSE @ - Len(d)]

Write(s0, e) ==
    LET s == Settle(s0)
        d == e.d
        here == e.c = s.cur /\ s.cur # 0
        fits == StartsWith(s.left, d)
        \* the first byte which is wrong
        wrong == IF Len(s.left) < Len(d) /\ StartsWith(d, s.left) THEN Len(s.left) + 1
                 ELSE CHOOSE n \in DOMAIN d : d[n] # s.left[n] /\ \A m \in 1..(n - 1) : d[m] = s.left[m]
        t == CASE ~here -> Break(s, {"C19"}, "write on another connection")
               [] s.ph = "hello" -> BreakIf(s, ~fits, HelloProps(s, s.done + wrong, d[wrong]), "wrong handshake")
               [] s.ph = "send" -> BreakIf(s, ~fits, {"C20"} \cup (IF s.chunks > 0 \/ Len(s.left) < Len(d) THEN {"C21"} ELSE {}),
                                                     "wrong command")
               [] s.want.k = "Invalid" -> Break(s, {"C20"}, "part of a refused message was sent")
               [] s.ph \in {"first", "second"} -> Break(s, HelloProps(s, 0, 0), "write after the handshake")
               [] OTHER -> Break(s, IF Connecting(s) THEN {"C15"} ELSE IF s.op = "recv" THEN {"C18", "C21"} ELSE {"C21"},
                                    "write where none is due")
        n == IF Len(d) > Len(s.left) THEN Len(s.left) ELSE Len(d)
    IN IF e.c \notin DOMAIN s.conns THEN t
       ELSE [t EXCEPT !.conns[e.c] = Took(@, d), !.left = IF here THEN From(s.left, n + 1) ELSE @,
                      !.done = IF here THEN @ + Len(d) ELSE @, !.chunks = @ + 1]

Flushed(s0, e) ==
    LET s == Settle(s0)
        t == IF e.c \in DOMAIN s.conns THEN [s EXCEPT !.conns[e.c].fl = Len(s.conns[e.c].out)] ELSE s
    IN IF s.ph = "hello" /\ s.left = <<>> /\ e.c = s.cur
       THEN [t EXCEPT !.ph = "first", !.reply = s.now + ReplyTimeout] ELSE t

\* A write or a flush met an error.
WriteError(s0, e) ==
    LET s == Settle(s0) IN
    CASE e.c # s.cur -> Break(s, {"C19"}, "write on another connection")
      [] s.ph = "hello" -> FailSoft(s, ResIo("Io", e.k))
      [] s.ph = "send" -> Fail(s, ResIo("Io", e.k))
      [] OTHER -> s

\* The client waits.
Unwritten(s) == s.left # <<>> /\ (Conn(s).win # 0 \/ Conn(s).werr # "")
Unflushed(s) == s.left = <<>> /\ (Conn(s).gate \/ Conn(s).ferr # "")
Class(s) == CASE s.op = "connect" -> {"C15", "C17"} [] s.op = "reconnect" -> {"C16", "C17"}
              [] s.op = "recv" -> {"C18"} [] OTHER -> {"C21"}
Block(s0) ==
    LET s == Settle(s0) IN
    CASE s.want.k # "" -> Break(s, Class(s), "waits instead of returning")
      [] s.ph = "start" -> Break(s, {"C15", "C17"}, "does not open a connection")
      [] s.ph = "sleep" -> BreakIf(s, s.now >= s.wake, {"C14", "C16", "C17"}, "no attempt although the delay is over")
      [] Overdue(s) -> Break(s, {"C17"} \cup (IF s.now >= s.ddl THEN {"C14"} ELSE {}), "waits although the time is over")
      [] s.ph = "hello" -> BreakIf(BreakIf(s, Unwritten(s), Class(s) \cup {"C15"}, "handshake incomplete"),
                                   Unflushed(s), Class(s) \cup {"C15"}, "handshake not flushed")
      [] s.ph = "send" -> BreakIf(s, Unwritten(s) \/ Unflushed(s), {"C21"}, "waits although the connection is ready")
      [] OTHER -> s

\* Lines of earlier connections, for telling stale messages.
Earlier(s, d) == \E n \in 1..(s.cur - 1) : d # <<>> /\ Occurs(s.conns[n].inq, d)

Return(s0, e) ==
    LET r == [k |-> e.k, io |-> e.io, d |-> e.d, disc |-> e.disc]
        s == Settle(s0)
        timely == e.k = "Timeout" /\ Connecting(s) /\ (Overdue(s0) \/ Overdue(s))
        sent == s.ph = "send" /\ s.left = <<>> /\ Conn(s).fl = Len(Conn(s).out) /\ e.k = "ok"
        any == s.want.k = "any"
        fine == any \/ timely \/ sent \/ (s.want.k # "" /\ r = s.want)
        onlyDisc == s.op = "recv" /\ s.want.k # "" /\ [r EXCEPT !.disc = s.want.disc] = s.want
        why == CASE onlyDisc -> "wrong classification of a disconnect"
                 [] s.want.k = "" -> "returned " \o e.k \o " instead of waiting"
                 [] OTHER -> "returned " \o e.k \o " instead of " \o s.want.k
        early == e.k = "Timeout" /\ s.want.k = ""
        props == CASE s.op = "connect" -> {"C15"} \cup (IF early THEN {"C17", "C14"} ELSE {})
                   [] s.op = "reconnect" -> (IF early /\ s.ph # "sleep" THEN {"C17", "C14"} ELSE {})
                                            \cup (IF s0.ph \in {"hello", "first", "second"} THEN {"C15", "C16"}
                                                 ELSE {"C16"} \cup (IF s.ph = "sleep" THEN {"C14"} ELSE {}))
                   [] s.op = "recv" -> {"C18"} \cup (IF e.k = "msg" /\ Earlier(s, e.d) THEN {"C19"} ELSE {})
                   [] OTHER -> IF s.want.k = "Invalid" \/ e.k = "Invalid" THEN {"C20"} ELSE {"C21"}
        t == BreakIf(s, ~fine, props, why)
        up == Connecting(s) /\ e.k = "ok" /\ s.cur # 0
        u == IF up THEN [t EXCEPT !.conns[s.cur].up = TRUE]
             ELSE IF s.op = "recv" /\ ~fine /\ ~onlyDisc /\ s.cur # 0 THEN [t EXCEPT !.conns[s.cur].end = "unspec"] ELSE t
    IN Leave(u, IF s.op = "connect" THEN e.k = "ok" ELSE s.alive)

PanicProps(s) == CASE s.op = "connect" -> {"C15"} [] s.op = "reconnect" -> {"C16"} [] s.op = "recv" -> {"C18"}
                   [] OTHER -> {"C20", "C21"}

-----------------------------------------------------------------------------
(* What the client reports besides                                          *)

CheckCfg(s, e) == BreakIf(s, [d \in DOMAIN s.cfg |-> e[d]] # s.cfg, {"C14"}, "other configuration")
\* The raw token, without a prefix the user gave it.
Secret(cfg) == LET t == cfg.token[1] IN IF StartsWith(t, T("oauth:")) THEN From(t, 7) ELSE t
CountOf(s, p) == Cardinality({n \in 1..(Len(s) - Len(p) + 1) : OccursAt(s, p, n)})
SecretOk(out, secret) ==
    LET n == CountOf(out, secret)
        line == CRLF \o T("PASS oauth:") \o secret
    IN n = 0 \/ (n = 1 /\ (Occurs(out, line \o CRLF) \/ EndsWith(out, line) \/ EndsWith(out, line \o <<CR>>)))
CheckLeaks(s, e) ==
    BreakIf(BreakIf(s, e.where # <<>>, {"C22"}, "the token is in " \o (IF e.where = <<>> THEN "" ELSE e.where[1])),
            \* (said of tokens which the login does not happen to contain)
            s.cfg.token # None /\ Len(Secret(s.cfg)) >= 6 /\ ~Occurs(s.cfg.login, Secret(s.cfg)) /\ \E n \in DOMAIN s.conns : ~SecretOk(s.conns[n].out, Secret(s.cfg)),
            {"C22"}, "the token is in other written bytes")
\* The nonce which the library itself reads from the PING or PONG it sent.
CheckEcho(s, e) == BreakIf(BreakIf(s, e.of = "pong" /\ e.nonce # PingNonce(e.line), {"C24"}, "other nonce in the PING"),
                           ~e.ok \/ e.got # e.nonce, {"C24"}, "other nonce")

\* Many anonymous logins at once: none outside the range, none with a token.
CheckAnon(s, e) == BreakIf(s, e.odd # 0 \/ e.tokens # 0 \/ e.least < 10000 \/ e.most > 99998, {"C14"}, "other anonymous login")

AllProps == {"C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C24", "C25"}
Step(s1, e) ==
    LET s == [s1 EXCEPT !.at = @ + 1] IN
    CASE e.e = "build" -> Build(s, e)
      [] e.e = "call" -> Begin(s, e)
      [] e.e = "cancel" -> Cancel(s)
      [] e.e = "openres" -> OpenResult(s, e)
      [] e.e = "rx" -> [s EXCEPT !.conns[e.c].inq = @ \o e.d]
      [] e.e = "eof" -> [s EXCEPT !.conns[e.c].end = "eof"]
      [] e.e = "rerr" -> [s EXCEPT !.conns[e.c].end = e.k]
      [] e.e = "win" -> [s EXCEPT !.conns[e.c].win = e.n]
      [] e.e = "werr" -> [s EXCEPT !.conns[e.c].werr = e.k, !.conns[e.c].win = IF @ = -1 THEN 0 ELSE @]
      [] e.e = "gate" -> [s EXCEPT !.conns[e.c].gate = e.open]
      [] e.e = "ferr" -> [s EXCEPT !.conns[e.c].ferr = e.k]
      [] e.e = "tick" -> [s EXCEPT !.now = @ + e.ms]
      [] e.e = "open" -> Open(s)
      [] e.e = "w" -> Write(s, e)
      [] e.e = "f" -> Flushed(s, e)
      [] e.e \in {"we", "fe"} -> WriteError(s, e)
      [] e.e = "block" -> Block(s)
      [] e.e = "ret" -> Return(s, e)
      [] e.e = "panic" -> Leave(BreakIf(s, ~(s.ph = "recv" /\ Conn(s).end = "unspec"), PanicProps(s), "panicked"), s.alive)
      [] e.e = "dead" -> Break(s, AllProps, "the process died")
      [] e.e = "cfg" -> CheckCfg(s, e)
      [] e.e = "leaks" -> CheckLeaks(s, e)
      [] e.e = "anon" -> CheckAnon(s, e)
      [] e.e = "echo" -> CheckEcho(s, e)
      [] OTHER -> s
=============================================================================

--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* The client of Client.tla in an arbitrary environment.                   *)
(*                                                                         *)
(* The environment moves, at some point the client is polled (`mrun`), and *)
(* then does anything that breaks no rule of Step, until it waits or       *)
(* returns.  Lines are one letter long and judged by a table; time is      *)
(* kept relative to now, so that it is not bounded.  `mg` remembers what   *)
(* the properties below are about; they are stated over that history, not  *)
(* with the definitions that Step uses.                                    *)
(*                                                                         *)
(* With Emit as an action constraint every transition of the environment   *)
(* is printed, together with a shortest history leading to it: these are   *)
(* the behaviours which are replayed into the real client.                 *)
(***************************************************************************)
EXTENDS Client, Json

CONSTANTS Cfgs,          \* configurations
          Calls,         \* operations the program may start, as records
          Rx,            \* pieces of text a peer may send
          MaxRx,         \* bytes received per connection
          OpenResults, ReadErrs, WriteErrs, Wins, Gates,
          Ticks,         \* how time may pass
          MaxConns, MaxCalls, Cancels,
          OldRx,         \* may an earlier connection still receive?
          Prompt,        \* is the client polled after every event?
          MaxOpens,      \* attempts in one call which are looked at
          Recorded,      \* is the history of the environment kept?
          Ready,         \* does it begin with an established connection?
          Track          \* what to remember: subset of {"read", "sent", "time"}

VARIABLES mst, mrun, mg, mh
mvars == <<mst, mrun, mg, mh>>

-----------------------------------------------------------------------------
(* Letters.  These definitions replace those of Client in the .cfg files.   *)

LAck == 1   LNak == 2   LWelcome == 3   LLogin == 4   LNotice == 5   LOther == 6   LBad == 7   LEmpty == 8
McReplyTimeout == 2
McHello(cfg) == <<50, 51>>
McFromCfg(cfg, n, x) == FALSE
McBytes(a) == a.data
McRefused(a) == a.op = "refused"
McLineResult(line) ==
    IF \E n \in DOMAIN line : line[n] = LBad THEN ResIo("Io", "InvalidData")
    ELSE IF line = <<>> \/ line = <<LEmpty>> THEN ResText("Parse", line)
    ELSE ResText("msg", line)
McFirst(r) == IF r.k # "msg" THEN r
              ELSE CASE r.d = <<LAck>> -> Res("go") [] r.d = <<LNak>> -> Res("Auth") [] OTHER -> ResText("Welcome", r.d)
McSecond(r) == IF r.k # "msg" THEN r
               ELSE CASE r.d = <<LWelcome>> -> Res("ok") [] r.d = <<LLogin>> -> Res("Auth")
                      [] r.d = <<LNotice>> -> ResText("Notice", r.d) [] OTHER -> ResText("Welcome", r.d)

-----------------------------------------------------------------------------
(* Keeping the state small: relative times, nothing that cannot matter.     *)

Timed(s) == s.ph \in {"open", "hello", "first", "second"}
Zero(x, keep) == IF keep THEN x ELSE 0
Canon(s) == [s EXCEPT !.at = 0, !.now = 0,
                      !.ddl = Zero(@ - s.now, Timed(s)),
                      !.reply = Zero(@ - s.now, s.ph \in {"first", "second"}),
                      !.wake = Zero(@ - s.now, s.ph = "sleep"),
                      !.tries = IF s.op = "reconnect" THEN @ ELSE None,
                      !.delay = Zero(@, s.op = "reconnect"),
                      !.cause = IF s.op = "reconnect" THEN @ ELSE NoRes,
                      !.done = 0, !.opens = 0, !.chunks = 0]

Ghost0 == [all |-> <<>>,                  \* per connection: everything received,
           err |-> <<>>,                  \* and was there a read error
           got |-> <<>>,                  \* results of recv on the current connection
           sent |-> <<>>, pend |-> <<>>,  \* what was sent successfully on it; what is being sent
           dirty |-> FALSE,               \* did a send fail or get cancelled on it
           gap |-> 0, gaps |-> <<>>,      \* time since the last attempt ended (or the call), at each open
           el |-> 0,                      \* time since the last open
           opens |-> 0, why |-> "",       \* attempts of this call, and what went wrong last
           calls |-> 0, last |-> [op |-> "none", k |-> "", io |-> ""], blocked |-> FALSE]
On(x) == x \in Track
Remember(e) == IF Recorded THEN Append(mh, e) ELSE mh

Hands == <<LAck, LF, LWelcome, LF>>
Init == /\ \E cfg \in Cfgs : mst = IF ~Ready THEN [Start EXCEPT !.cfg = cfg]
                               ELSE [Start EXCEPT !.cfg = cfg, !.alive = TRUE, !.cur = 1,
                                       !.conns = <<[NewConn EXCEPT !.out = McHello(cfg), !.fl = 2, !.up = TRUE]>>]
        /\ mrun = FALSE
        /\ mg = IF Ready THEN [Ghost0 EXCEPT !.all = <<Hands>>, !.err = <<FALSE>>] ELSE Ghost0
        /\ mh = <<>>

-----------------------------------------------------------------------------
(* The environment                                                          *)

SendOps == {"send", "refused"}
\* A program uses only connections that were established.
EnvCalls == {[e |-> "call"] @@ c : c \in {c \in Calls : CASE c.op = "connect" -> ~mst.alive
                                                        [] c.op = "reconnect" -> mst.alive
                                                        [] OTHER -> mst.alive /\ Conn(mst).up}}
Sites == IF OldRx THEN DOMAIN mst.conns ELSE {Len(mst.conns)} \ {0}
EnvEvents ==
       (IF mst.op = "none" /\ mg.calls < MaxCalls THEN EnvCalls ELSE {})
  \cup (IF mst.op # "none" /\ mst.op \in Cancels THEN {[e |-> "cancel"]} ELSE {})
  \cup (IF mst.ph = "open" /\ mst.res = NoRes
        THEN {[e |-> "openres", k |-> k] : k \in (IF Len(mst.conns) < MaxConns THEN OpenResults ELSE OpenResults \ {"ok"})}
        ELSE {})
  \cup UNION {{[e |-> "rx", c |-> c, d |-> d] : d \in {d \in Rx : /\ mst.conns[c].end = ""
                                                                  /\ Len(mg.all[c]) + Len(d) <= MaxRx}} : c \in Sites}
  \cup UNION {{[e |-> "rerr", c |-> c, k |-> k] : k \in {k \in ReadErrs : k # "eof" /\ mst.conns[c].end = ""}} : c \in Sites}
  \cup (IF "eof" \in ReadErrs THEN {[e |-> "eof", c |-> c] : c \in {c \in Sites : mst.conns[c].end = ""}} ELSE {})
  \cup {[e |-> "win", c |-> Len(mst.conns), n |-> n] :
            n \in {n \in Wins : mst.conns # <<>> /\ LET c == mst.conns[Len(mst.conns)] IN c.werr = "" /\ c.win # n}}
  \cup {[e |-> "werr", c |-> Len(mst.conns), k |-> k] : k \in {k \in WriteErrs : mst.conns # <<>> /\ mst.conns[Len(mst.conns)].werr = ""}}
  \cup {[e |-> "gate", c |-> Len(mst.conns), open |-> b] : b \in {b \in Gates : mst.conns # <<>> /\ mst.conns[Len(mst.conns)].gate # b}}
  \cup {[e |-> "tick", ms |-> n] : n \in {n \in Ticks : mst.op # "none"}}

GhostEnv(e) ==
    CASE e.e = "call" -> [mg EXCEPT !.calls = IF MaxCalls > 99 THEN 0 ELSE @ + 1, !.opens = 0, !.gap = 0, !.gaps = <<>>, !.why = "",
                                    !.last = [op |-> "none", k |-> "", io |-> ""],
                                    !.pend = IF e.op = "send" THEN e.data ELSE <<>>]
      [] e.e = "openres" /\ e.k = "ok" -> [mg EXCEPT !.all = Append(@, <<>>), !.err = Append(@, FALSE)]
      [] e.e = "openres" -> [mg EXCEPT !.why = IF On("time") THEN e.k ELSE ""]
      [] e.e = "rerr" -> [mg EXCEPT !.err[e.c] = TRUE]
      [] e.e = "rx" -> [mg EXCEPT !.all[e.c] = @ \o e.d]
      [] e.e = "tick" /\ On("time") -> [mg EXCEPT !.gap = IF mst.ph = "sleep" THEN @ + e.ms ELSE 0,
                                                  !.el = IF Timed(mst) THEN @ + e.ms ELSE 0]
      [] e.e = "cancel" -> [mg EXCEPT !.dirty = @ \/ mst.op \in SendOps, !.last = [op |-> "cancelled", k |-> "", io |-> ""]]
      [] OTHER -> mg

Env == /\ ~mrun
       /\ \E e \in EnvEvents :
             /\ mst' = Canon(Step(mst, e))
             /\ mg' = [GhostEnv(e) EXCEPT !.blocked = FALSE]
             /\ mrun' = (e.e = "call" \/ (Prompt /\ mst.op # "none" /\ e.e # "cancel"))
             /\ mh' = Remember(e)

Poll == /\ ~mrun /\ mst.op # "none" /\ ~mg.blocked
        /\ mrun' = TRUE /\ mh' = Remember([e |-> "poll"])
        /\ UNCHANGED <<mst, mg>>

-----------------------------------------------------------------------------
(* The client                                                               *)

Now == Settle(mst)
Most(c, left) == IF c.win = -1 \/ c.win > Len(left) THEN Len(left) ELSE c.win
Writes == IF Now.ph \notin {"hello", "send"} \/ Now.left = <<>> THEN {}
          ELSE {[e |-> "w", c |-> Now.cur, d |-> UpTo(Now.left, n)] : n \in 1..Most(Conn(Now), Now.left)}
               \cup (IF Conn(Now).win = 0 /\ Conn(Now).werr # "" THEN {[e |-> "we", c |-> Now.cur, k |-> Conn(Now).werr]} ELSE {})
Flushes == IF Now.ph \in {"hello", "send"} /\ Now.left = <<>> /\ Conn(Now).fl < Len(Conn(Now).out) /\ Conn(Now).gate
           THEN {[e |-> "f", c |-> Now.cur]} ELSE {}
RetEvent(r) == [e |-> "ret", k |-> r.k, io |-> r.io, d |-> r.d, disc |-> r.disc]
Returns == {RetEvent(r) : r \in {r \in {Now.want, Res("ok"), Res("Timeout"), Res("Auth"), [Res("Closed") EXCEPT !.disc = TRUE]} : r.k # ""}}
ClientEvents == {e \in {[e |-> "open"], [e |-> "block"]} \cup Writes \cup Flushes \cup Returns :
                    Step(mst, e).bad = {}}

GhostClient(e) ==
    LET up == e.e = "ret" /\ mst.op \in {"connect", "reconnect"} /\ e.k = "ok"
        \* the current connection may have changed
        moved == Now.cur # mst.cur
        g == IF moved THEN [mg EXCEPT !.got = <<>>, !.sent = <<>>, !.dirty = FALSE] ELSE mg
        \* an attempt has just failed
        failed == mst.ph # "sleep" /\ Step(mst, e).ph = "sleep"
        h == IF failed /\ On("time") THEN [g EXCEPT !.gap = 0] ELSE g
    IN CASE e.e = "open" -> IF ~On("time") THEN h
                            ELSE [h EXCEPT !.opens = @ + 1, !.el = 0, !.why = "",
                                           !.gaps = IF mst.op = "reconnect" THEN Append(@, IF mst.ph = "sleep" THEN h.gap ELSE 0) ELSE @]
         [] e.e = "we" -> [h EXCEPT !.why = IF On("time") THEN e.k ELSE ""]
         [] e.e = "ret" -> [h EXCEPT !.last = [op |-> mst.op, k |-> e.k, io |-> e.io],
                                     !.got = IF On("read") /\ mst.op = "recv" THEN Append(@, [k |-> e.k, d |-> e.d]) ELSE @,
                                     !.sent = IF On("sent") /\ mst.op \in SendOps /\ e.k = "ok"
                                              THEN @ \o mg.pend ELSE @,
                                     !.dirty = @ \/ (mst.op \in SendOps /\ e.k \notin {"ok", "Invalid"})]
         [] OTHER -> h

Client == /\ mrun
          /\ \E e \in ClientEvents :
                /\ mst' = Canon(Step(mst, e))
                /\ mg' = [GhostClient(e) EXCEPT !.blocked = (e.e = "block")]
                /\ mrun' = (e.e \notin {"block", "ret"})
          /\ UNCHANGED mh

Next == Env \/ Poll \/ Client
Pass == /\ ~mrun /\ mst.op # "none" /\ Ticks # {}
        /\ LET e == [e |-> "tick", ms |-> CHOOSE n \in Ticks : TRUE] IN
           /\ mst' = Canon(Step(mst, e)) /\ mg' = [GhostEnv(e) EXCEPT !.blocked = FALSE]
           /\ mrun' = Prompt
           /\ mh' = Remember(e)
Spec == Init /\ [][Next]_mvars
FairSpec == Spec /\ WF_mvars(Client) /\ WF_mvars(Poll) /\ SF_mvars(Pass)

FewOpens == mg.opens <= MaxOpens
View == <<mst, mrun, mg>>
Emit == mh' # mh => PrintT("BEHAVIOUR " \o ToJson([cfg |-> mst.cfg, h |-> mh']))

-----------------------------------------------------------------------------
(* Properties                                                               *)

NoBreak == mst.bad = {}
\* While the client runs it can always do something, and what it does is determined up to the sizes of writes
\* and a race between a result and a deadline.
Live == mrun => ClientEvents # {}
Determined == mrun => \/ Cardinality({e.e : e \in ClientEvents}) = 1
                      \/ \E e \in ClientEvents : e.e = "ret" /\ e.k = "Timeout"

\* The lines of a whole stream: an independent definition.
Cuts(s) == {n \in DOMAIN s : s[n] = LF}
Stripped(l) == IF l # <<>> /\ l[Len(l)] = CR THEN SubSeq(l, 1, Len(l) - 1) ELSE l
Ended(s) == LET ends == SetToSortSeq(Cuts(s), LAMBDA a, b : a < b)
            IN [n \in DOMAIN ends |-> Stripped(SubSeq(s, IF n = 1 THEN 1 ELSE ends[n - 1] + 1, ends[n] - 1))]
Rest(s) == LET C == Cuts(s) IN IF C = {} THEN s ELSE SubSeq(s, (CHOOSE x \in C : \A y \in C : y <= x) + 1, Len(s))

\* C15
HelloFirst == \A n \in DOMAIN mst.conns :
    LET o == mst.conns[n].out IN IF mst.conns[n].up THEN IsPrefix(McHello(0), o) ELSE IsPrefix(o, McHello(0))
Connected == (mg.last.op \in {"connect", "reconnect"} /\ mg.last.k = "ok" /\ ~mrun /\ mst.op = "none") =>
    /\ mst.cur = Len(mst.conns)
    /\ LET c == Conn(mst) ls == Ended(mg.all[mst.cur]) IN
       /\ c.out = McHello(0) /\ c.fl = Len(c.out)
       /\ Len(ls) >= 1 /\ ls[1] = <<LAck>>
       /\ (Len(ls) >= 2 /\ ls[2] = <<LWelcome>>) \/ (Len(ls) = 1 /\ Rest(mg.all[mst.cur]) = <<LWelcome>>)
\* ... and it does succeed then, unless time ran out: a wait of the handshake means that there is no second line.
NotYet == (mg.blocked /\ mst.ph \in {"first", "second"}) =>
    LET ls == Ended(mg.all[mst.cur]) IN
    /\ mst.conns[mst.cur].end = ""
    /\ IF mst.ph = "first" THEN Len(ls) = 0 ELSE Len(ls) = 1 /\ ls[1] = <<LAck>>

\* C16
Power(b, n) == IF n = 0 THEN 1 ELSE b ^ n
Expected(n) == LET c == mst.cfg
                   p == c.init * Power(c.mult, n - 1)
               IN IF n = 1 THEN c.init ELSE IF p > c.max THEN c.max ELSE p
Backoff == /\ \A n \in DOMAIN mg.gaps : mg.gaps[n] = Expected(n)
           /\ (mst.op = "reconnect" /\ mst.cfg.tries # None) => mg.opens <= mst.cfg.tries[1]
           /\ (mst.op = "reconnect" /\ mst.ph = "sleep" /\ mg.blocked) => mg.gap < Expected(mg.opens + 1)
Exhausted == (mg.last.op = "reconnect" /\ mst.cfg.tries # None /\ mst.op = "none" /\ mg.last.k \in {"Open", "Io"}) =>
                mg.opens = mst.cfg.tries[1]
\* What a reconnect reports is what went wrong in its last attempt.
LastCause == (mg.last.op = "reconnect" /\ mst.op = "none") =>
    CASE mg.last.k \in {"Open", "Io"} -> mg.last.io = mg.why
      [] mg.last.k = "Timeout" /\ mg.el < mst.cfg.timeout -> mg.why \in {"", "ok"}
      [] OTHER -> TRUE

\* C17
Bounded == mg.blocked => CASE mst.ph = "open" -> mg.el < mst.cfg.timeout
                           [] mst.ph \in {"hello", "first", "second"} -> mg.el < 2 * mst.cfg.timeout
                           [] OTHER -> TRUE
ConnectEnds == mst.op = "connect" ~> mst.op = "none"
ReconnectEnds == (mst.op = "reconnect" /\ mst.cfg.tries # None) ~> mst.op = "none"

\* C18
\* What receiving yields until it yields only "closed".
Everything(n) == LET c == mst.conns[n]
                     s == mg.all[n]
                     ls == Ended(s) \o (IF c.end = "eof" /\ ~mg.err[n] /\ Rest(s) # <<>> THEN <<Rest(s)>> ELSE <<>>)
                     shown(l) == IF \E i \in DOMAIN l : l[i] = LBad THEN [k |-> "Io", d |-> <<>>]
                                 ELSE IF l = <<>> \/ l = <<LEmpty>> THEN [k |-> "Parse", d |-> l] ELSE [k |-> "msg", d |-> l]
                 IN [i \in DOMAIN ls |-> shown(ls[i])] \o (IF mg.err[n] THEN <<[k |-> "Io", d |-> <<>>]>> ELSE <<>>)
\* Not said: what follows a read error in the middle of a line.
Torn(n) == mg.err[n] /\ Rest(mg.all[n]) # <<>>
\* The first two lines of an established connection went into the handshake.
InOrder == (On("read") /\ mst.cur # 0 /\ Conn(mst).up) =>
    LET e == Everything(mst.cur)
        k == Len(mg.got)
        due == SubSeq(e, 3, Len(e))
        over == Len(due)
    IN /\ \A i \in 1..k : IF i <= over THEN mg.got[i] = due[i]
                          ELSE /\ Conn(mst).end # ""
                               /\ Torn(mst.cur) \/ mg.got[i] = [k |-> "Closed", d |-> <<>>]
       /\ (mg.blocked /\ mst.op = "recv") => k = over /\ Conn(mst).end = ""

\* C19
\* InOrder, HelloFirst and AllSent speak of the current connection only: with several connections they say that
\* nothing of an earlier one is left.  And nothing is written to an earlier one.
Abandoned == [][\A n \in DOMAIN mst.conns : n < mst.cur => mst'.conns[n].out = mst.conns[n].out]_mvars

\* C22
\* What the handshake says (the token is its second letter) is said once per connection, at its start.
TokenOnce == \A n \in DOMAIN mst.conns : \A k \in DOMAIN mst.conns[n].out : mst.conns[n].out[k] = 51 => k = 2

\* C21
AllSent == (On("sent") /\ mst.cur # 0 /\ Conn(mst).up /\ mst.op = "none" /\ ~mrun /\ ~mg.dirty) =>
    /\ Conn(mst).out = McHello(0) \o mg.sent
    /\ Conn(mst).fl = Len(Conn(mst).out)
\* A refused message leaves no trace, and one that failed or is under way only a part of it.
Partial == (On("sent") /\ mst.cur # 0 /\ Conn(mst).up /\ ~mg.dirty) =>
    IsPrefix(Conn(mst).out, McHello(0) \o mg.sent \o mg.pend)
=============================================================================

------------------------------- MODULE TlsMC --------------------------------
(***************************************************************************)
(* Tls.tla with arbitrary peers: the client and the world do whatever      *)
(* breaks no rule, and what must never happen is stated over the run.      *)
(* Emit prints the complete runs: sequences of operations and of kinds of  *)
(* peers, which are replayed over real sockets.                            *)
(***************************************************************************)
EXTENDS Tls, Json

TlsTries == {None, Some(0), Some(1), Some(2)}
CONSTANTS Kinds,       \* of peers
          TrustStores, Tries, MaxPeers, MaxOps

VARIABLES tst, trun, tops
tvars == <<tst, trun, tops>>

\* A peer of each kind, as it differs from a good one.
Good == [mode |-> "tls", root |-> "A", via |-> "direct", names |-> <<Host>>, dates |-> "now", use |-> "server",
         key |-> "own", lines |-> <<T("x")>>]
Peer(k) == CASE k = "good" -> Good
             [] k = "goodB" -> [Good EXCEPT !.root = "B", !.via = "ca"]
             [] k = "wild" -> [Good EXCEPT !.names = <<T("example.com"), T("*.CHAT.twitch.tv")>>]
             [] k = "unknown" -> [Good EXCEPT !.root = "C"]
             [] k = "forged" -> [Good EXCEPT !.root = "fakeA"]
             [] k = "alone" -> [Good EXCEPT !.root = "self"]
             [] k = "host" -> [Good EXCEPT !.names = <<T("example.com")>>]
             [] k = "parent" -> [Good EXCEPT !.names = <<T("chat.twitch.tv"), T("*.twitch.tv"), T("*.irc.chat.twitch.tv")>>]
             [] k = "old" -> [Good EXCEPT !.dates = "over"]
             [] k = "early" -> [Good EXCEPT !.dates = "later"]
             [] k = "gap" -> [Good EXCEPT !.via = "missing"]
             [] k = "notca" -> [Good EXCEPT !.via = "notca"]
             [] k = "stolen" -> [Good EXCEPT !.key = "other"]
             [] k = "plain" -> [Good EXCEPT !.mode = "plain"]
             [] k = "hang" -> [Good EXCEPT !.mode = "hang"]
\* Which kinds are Twitch, by name.
IsTwitch(k, store) == CASE k \in {"good", "wild"} -> store = "AB" [] k = "goodB" -> store \in {"AB", "B"}
                        [] k = "unknown" -> store = "C" [] OTHER -> FALSE

Token == T("oauth:secret")
Init == \E ks \in [1..MaxPeers -> Kinds], store \in TrustStores, t \in Tries :
          /\ tst = TlsStep(TlsStart, [e |-> "build", peers |-> [n \in DOMAIN ks |-> Peer(ks[n])], store |-> store, tries |-> t,
                                      anon |-> FALSE, login |-> T("bob"), token |-> Token])
          /\ trun = [op |-> "none", seen |-> 0, kinds |-> ks, store |-> store, over |-> FALSE]
          /\ tops = <<>>

\* Are there peers for all attempts of a reconnect?
RECURSIVE Enough(_, _)
Enough(n, tries) == tries = Some(0) \/ (n < MaxPeers /\ (\/ Outcome(tst.peers[n + 1], tst.trusted) # "Open"
                                                        \/ Enough(n + 1, IF tries = None THEN None ELSE Some(tries[1] - 1))))
May(op) == CASE op = "connect" -> tops = <<>>
             [] op = "reconnect" -> tst.alive /\ Enough(tst.used, tst.cfg.tries)
             [] op = "send" -> tst.up /\ tst.want = {"ok"}
             [] op = "recv" -> tst.up /\ tst.want = {"ok"} /\ tst.lines # <<>>
Ask == /\ trun.op = "none" /\ ~trun.over /\ Len(tops) < MaxOps
       /\ \E op \in {"connect", "reconnect", "send", "recv"} :
             /\ May(op)
             /\ tst' = TlsStep(tst, [e |-> "call", op |-> op, d |-> IF op = "send" THEN T("y") ELSE <<>>])
             /\ trun' = [trun EXCEPT !.op = op]
             /\ tops' = Append(tops, op)

\* What may happen while the operation runs, and after it.
Datas == {<<>>, Hello(tst.cfg)} \cup {Hello(tst.cfg) \o d : d \in {T("y") \o CRLF}} \cup {CRLF}
Fine(e) == TlsStep(tst, e).bad = {}
World == /\ trun.op # "none" /\ trun.seen < MaxPeers
         /\ \E port \in {6697, 6667} :
               LET e == [e |-> "tcp", c |-> trun.seen + 1, port |-> port] IN
               Fine(e) /\ tst' = TlsStep(tst, e)
         /\ trun' = [trun EXCEPT !.seen = @ + 1]
         /\ UNCHANGED tops
Answer == /\ trun.op # "none"
          /\ \E k \in {"ok", "Open", "Timeout"} :
                LET e == [e |-> "ret", op |-> trun.op, k |-> k, d |-> IF trun.op = "recv" THEN T("x") ELSE <<>>] IN
                Fine(e) /\ tst' = TlsStep(tst, e)
          /\ trun' = [trun EXCEPT !.op = "none"]
          /\ UNCHANGED tops
\* What arrived is recorded at the end, connection by connection.
RECURSIVE Endings(_, _)
Endings(s, c) ==
    IF c > Len(s.due) THEN {TlsStep(s, [e |-> "done"])}
    ELSE UNION {Endings(t, c + 1) : t \in
            {t \in {IF d = <<>> THEN s ELSE TlsStep(s, [e |-> "app", c |-> c, d |-> d])
                      : d \in Datas \cup {Hello(s.cfg) \o s.due[c].sent}} : t.bad = {}}}
Finish == /\ trun.op = "none" /\ ~trun.over
          /\ \E t \in Endings(tst, 1) : t.bad = {} /\ tst' = t
          /\ trun' = [trun EXCEPT !.over = TRUE]
          /\ UNCHANGED tops
Next == Ask \/ World \/ Answer \/ Finish
Spec == Init /\ [][Next]_tvars
Emit == (trun'.over /\ ~trun.over /\ trun.store = "AB")
        => PrintT("BEHAVIOUR " \o ToJson([tries |-> tst.cfg.tries, kinds |-> SubSeq(trun.kinds, 1, tst.used), ops |-> tops]))

-----------------------------------------------------------------------------
\* C23
OnlyTwitch == \A n \in DOMAIN tst.app : IsTwitch(trun.kinds[tst.app[n].c], trun.store)
Authenticated == tst.up => IsTwitch(trun.kinds[tst.used], trun.store)
\* ... and Twitch is not turned away, and gets everything.
Served == trun.over => \A c \in 1..tst.used : IsTwitch(trun.kinds[c], trun.store) =>
             \E n \in DOMAIN tst.app : tst.app[n].c = c /\ StartsWith(tst.app[n].d, Hello(tst.cfg))
\* C19: what was sent on one connection arrives there and nowhere else.
Separate == trun.over => \A n \in DOMAIN tst.app : tst.app[n].d = Hello(tst.cfg) \o tst.due[tst.app[n].c].sent
Sound == tst.bad = {}
\* A run can always go on or end.
Live == trun.op # "none" => \/ trun.seen < tst.used
                            \/ \E k \in {"ok", "Open", "Timeout"} :
                                 Fine([e |-> "ret", op |-> trun.op, k |-> k, d |-> IF trun.op = "recv" THEN T("x") ELSE <<>>])
=============================================================================

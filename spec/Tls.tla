-------------------------------- MODULE Tls ---------------------------------
(***************************************************************************)
(* The client on real sockets: whom it talks to, and what it says to whom. *)
(*                                                                         *)
(* A peer is what answers a connection: how it behaves, and the            *)
(* certificate it shows:                                                   *)
(*   mode   "tls", or something which never becomes a TLS server           *)
(*   root   at the end of its chain; via: what lies between                *)
(*   names  which it is for; dates: valid "now", "over" or "later"         *)
(*   use    it is meant for; key: does the peer own the key?               *)
(* Connection n of a run is answered by peer n.  Events of the program:    *)
(*   call, ret     an operation (connect, reconnect, send, recv)           *)
(* and of the world:                                                       *)
(*   resolve       a name was looked up                                    *)
(*   tcp           a connection was made, to a port                        *)
(*   shook         the peer completed the TLS handshake                    *)
(*   app           everything that the peer then decrypted                 *)
(*   raw           everything that came as such, as TLS records            *)
(*   leaks         secrets seen elsewhere                                  *)
(* Those of the world may be recorded late, up to `done`.                  *)
(***************************************************************************)
EXTENDS Client

Host == T("irc.chat.twitch.tv")
Port == 6697

-----------------------------------------------------------------------------
(* Who is Twitch                                                            *)

\* The roots in each store.
Store(s) == CASE s = "AB" -> {"A", "B"} [] s = "B" -> {"B"} [] s = "C" -> {"C"} [] s = "none" -> {}
Low(s) == [n \in DOMAIN s |-> IF s[n] \in 65..90 THEN s[n] + 32 ELSE s[n]]
\* A name of a certificate, exact or with a star for the whole first label.
NameIs(pattern, host) ==
    LET p == Low(pattern)
        dot == Pos(host, 46, 1)
    IN \/ p = host
       \/ StartsWith(p, T("*.")) /\ From(p, 2) = From(host, dot)
Authentic(p, trusted) ==
    /\ p.mode = "tls"
    /\ p.root \in trusted
    /\ p.via \in {"direct", "ca", "two"}
    /\ p.dates = "now"
    /\ p.use # "client"
    /\ p.key = "own"
    /\ \E n \in DOMAIN p.names : NameIs(p.names[n], Host)
Outcome(p, trusted) == IF Authentic(p, trusted) THEN "ok" ELSE IF p.mode = "hang" THEN "Timeout" ELSE "Open"

-----------------------------------------------------------------------------
(* A run                                                                    *)

TlsStart == [peers |-> <<>>, trusted |-> {}, cfg |-> DefaultCfg(<<>>), anon |-> FALSE,
             used |-> 0,                       \* connections made
             alive |-> FALSE, up |-> FALSE,    \* is there a client; is its last connection established
             due |-> <<>>,                     \* per connection, what must arrive there
             lines |-> <<>>,                   \* still to be received on the last one
             want |-> {}, text |-> <<>>,       \* results the pending operation may have
             tcp |-> {}, app |-> <<>>, bad |-> {}, at |-> 0]
TBreak(s, cond, props, why) == IF cond THEN [s EXCEPT !.bad = @ \cup {<<p, s.at, why>> : p \in props}] ELSE s

\* One attempt to connect.
Attempt(s) ==
    LET p == s.peers[s.used + 1]
        o == Outcome(p, s.trusted)
    IN [s EXCEPT !.used = @ + 1, !.want = {o}, !.up = (o = "ok"), !.alive = @ \/ o = "ok",
                 !.due = Append(@, [ok |-> o = "ok", sent |-> <<>>]),
                 !.lines = IF o = "ok" THEN p.lines ELSE <<>>]
RECURSIVE Attempts(_, _)
Attempts(s, tries) ==
    IF tries = Some(0) THEN s
    ELSE LET t == Attempt(s)
         IN IF t.want # {"Open"} THEN t ELSE Attempts(t, IF tries = None THEN None ELSE Some(tries[1] - 1))

TlsCall(s, e) ==
    CASE e.op = "connect" -> Attempt(s)
      [] e.op = "reconnect" -> Attempts([s EXCEPT !.want = {"Timeout"}], s.cfg.tries)
      [] e.op = "send" -> [s EXCEPT !.want = {"ok"}, !.due[s.used].sent = @ \o e.d \o CRLF]
      [] e.op = "recv" -> [s EXCEPT !.want = {"ok"}, !.text = OrElse(s.lines, <<>>), !.lines = IF @ = <<>> THEN @ ELSE Tail(@)]
TlsRet(s, e, op) ==
    LET other == e.k \notin s.want
        t == TBreak(s, other,
                    IF e.k \in {"panic", "hangs"} \/ op \in {"connect", "reconnect"} THEN {"C23"} ELSE {},
                    "returned " \o e.k)
        u == TBreak(t, other /\ op = "send", {"C21"}, "returned " \o e.k)
        v == TBreak(u, op = "recv" /\ (other \/ e.d # s.text), {"C18"}, "received something else")
    IN v

\* What an unauthenticated peer may get: the records of a handshake, and an alert.
Handshake(recs) == /\ \A n \in DOMAIN recs : recs[n][1] \in {20, 21, 22, 23}
                   /\ recs # <<>> => recs[1][1] \in {21, 22}
                   /\ \A n \in DOMAIN recs : recs[n][1] = 23 => recs[n][2] <= 64
Twitch(s, c) == c \in DOMAIN s.peers /\ Authentic(s.peers[c], s.trusted)

TlsApp(s, e) ==
    LET t == [s EXCEPT !.app = Append(@, e)] IN
    IF ~Twitch(s, e.c) THEN TBreak(t, TRUE, {"C22", "C23"}, "data for an unauthenticated peer") ELSE t
\* At the end, when all operations are known.
\* At the end, when all operations are known: what arrived at each peer.
Arrived(s, c) == LET I == {n \in DOMAIN s.app : s.app[n].c = c} IN IF I = {} THEN <<>> ELSE s.app[CHOOSE n \in I : TRUE].d
TlsDone(s) ==
    LET ups == {c \in DOMAIN s.due : s.due[c].ok}
        wrong == {c \in ups : Arrived(s, c) # Hello(s.cfg) \o s.due[c].sent}
        greeted(c) == StartsWith(Arrived(s, c), Hello(s.cfg))
    IN TBreak(TBreak(TBreak(s, s.tcp # 1..s.used, {"C23"}, "other connections than due"),
                     \E c \in wrong : ~greeted(c), {"C15", "C19"}, "wrong handshake arrived"),
              \E c \in wrong : greeted(c), {"C19", "C21"}, "something else arrived")

TlsStep(s1, e) ==
    LET s == [s1 EXCEPT !.at = @ + 1] IN
    CASE e.e = "build" -> [s EXCEPT !.peers = e.peers, !.trusted = Store(e.store), !.anon = e.anon,
                                    !.cfg.login = e.login, !.cfg.token = IF e.anon THEN None ELSE Some(e.token),
                                    !.cfg.tries = e.tries]
      [] e.e = "call" -> TlsCall([s EXCEPT !.text = <<>>], e)
      [] e.e = "ret" -> TlsRet(s, e, e.op)
      [] e.e = "resolve" -> TBreak(s, e.name # Host, {"C23"}, "looks for another host")
      [] e.e = "tcp" -> TBreak([s EXCEPT !.tcp = @ \cup {e.c}], e.port # Port, {"C23"}, "connects to another port")
      [] e.e = "shook" -> TBreak(s, ~Twitch(s, e.c), {"C23"}, "trusts an unauthenticated peer")
      [] e.e = "app" -> TlsApp(s, e)
      [] e.e = "raw" -> TBreak(TBreak(s, e.secret, {"C22", "C23"}, "credentials in plain text"),
                               ~Twitch(s, e.c) /\ (e.junk \/ ~Handshake(e.recs)), {"C23"}, "more than a TLS handshake")
      [] e.e = "cfg" -> [s EXCEPT !.cfg.login = IF s.anon THEN e.login ELSE @]
      [] e.e = "leaks" -> TBreak(s, e.where # <<>>, {"C22"}, "the token is in " \o (IF e.where = <<>> THEN "" ELSE e.where[1]))
      [] e.e = "dead" -> TBreak(s, TRUE, {"C15", "C18", "C19", "C21", "C22", "C23"}, "the process died")
      [] e.e = "done" -> TlsDone(s)
      [] OTHER -> s
=============================================================================

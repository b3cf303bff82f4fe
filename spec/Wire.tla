-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* Conformance of recorded answers of the library to the specification.    *)
(*                                                                         *)
(* A record is what every build (scalar, sse2, avx2) and every view (a     *)
(* borrowed message, an owned one, a deserialised one, ...) of the library *)
(* answered for one input:                                                 *)
(*   [i, k, s, obs: sequence of [who, r]]                                  *)
(* where Whos[who] is a sequence of <<build, view>>.  Equal answers share  *)
(* one element of obs.  JudgeCxx(rec) is property Cxx  *)
(* for that record.  The records are visited as the states of a trivial    *)
(* behaviour; a record that does not conform is printed, so that one run   *)
(* reports all of them.                                                    *)
(***************************************************************************)
EXTENDS Typed, Json, TLC, IOUtils, FiniteSets

Recs == ndJsonDeserialize(IOEnv.WIRE_TRACE)
Property == IOEnv.WIRE_PROPERTY
Stride == 64

Whos == TLCEval(JsonDeserialize(IOEnv.WIRE_WHO))
ViewsOf == TLCEval([w \in DOMAIN Whos |-> {Whos[w][j][2] : j \in DOMAIN Whos[w]}])
BuildsOf == TLCEval([w \in DOMAIN Whos |-> {Whos[w][j][1] : j \in DOMAIN Whos[w]}])
Views(o) == ViewsOf[o.who]
Builds(o) == BuildsOf[o.who]
All(rec, P(_)) == \A j \in DOMAIN rec.obs : P(rec.obs[j])
\* The observations by one of these views ("all": the process did not survive the input).
By(rec, vs, P(_)) == \A j \in DOMAIN rec.obs :
                        Views(rec.obs[j]) \cap (vs \cup {"all"}) # {} => P(rec.obs[j].r)
Answered(r) == DOMAIN r \cap {"panic", "inconsistent"} = {}
Panicked(r) == "panic" \in DOMAIN r
Has(r, f) == f \in DOMAIN r

-----------------------------------------------------------------------------
(* Raw messages: k = "line".                                                *)

LineOk(r, P) == Answered(r) /\ r.ok = P.ok

\* C01: always an answer, and a message exactly for a non-empty command.
C01(rec) ==
    /\ All(rec, LAMBDA o : ~Panicked(o.r))
    /\ rec.k = "line" => LET P == Parse(rec.s) IN All(rec, LAMBDA o : LineOk(o.r, P))
    /\ rec.k = "typed" => By(rec, {"accepts"}, LAMBDA r : \A x \in DOMAIN r.kinds : r.kinds[x] # "panic")

C02(rec) ==
    rec.k = "line" =>
       LET P == Parse(rec.s) IN
       All(rec, LAMBDA o : P.ok => LineOk(o.r, P) /\ o.r.tags = P.tags)

C03Lookup(rec) ==
    LET P == Parse(rec.s)
        fits(a) == LET e == Lookup(P.tags, a.name) IN
                   /\ a.str = e /\ a.parsed = e /\ a.tag = e
                   /\ a.form = IF \E t \in DOMAIN TagNames : TagNames[t][2] = a.name
                               THEN "named" ELSE "unknown"
    IN All(rec, LAMBDA o : /\ LineOk(o.r, P)
                           /\ P.ok => \A j \in DOMAIN o.r.q : fits(o.r.q[j]))
C03Names(rec) ==
    /\ By(rec, {"tags"}, LAMBDA r :
          /\ Answered(r)
          /\ Len(r.all) = Len(TagNames)
          /\ \A j \in DOMAIN r.all : /\ r.all[j].name = TagNames[j][1] /\ r.all[j].wire = TagNames[j][2]
                                 /\ r.all[j].shown = TagNames[j][2] /\ r.all[j].back
                                 /\ r.all[j].parsed = TagNames[j][1])
    /\ By(rec, {"commands"}, LAMBDA r :
          /\ Answered(r)
          /\ Len(r.all) = Len(CommandNames)
          /\ \A j \in DOMAIN r.all : /\ r.all[j].name = CommandNames[j][1] /\ r.all[j].wire = CommandNames[j][2]
                                 /\ r.all[j].shown = CommandNames[j][2])
C03(rec) == /\ rec.k = "lookup" => C03Lookup(rec)
            /\ rec.k = "names" => C03Names(rec)
            /\ rec.k = "line" =>
                  LET P == Parse(rec.s) IN
                  All(rec, LAMBDA o : P.ok => LineOk(o.r, P) /\ o.r.kind = P.kind /\ o.r.word = P.word)

ShownPrefix(p) == IF p = None THEN None
                  ELSE Some([nick |-> p[1].nick, user |-> p[1].user, host |-> p[1].host,
                             shown |-> PrefixShown(p[1])])
C04(rec) ==
    rec.k = "line" =>
       LET P == Parse(rec.s) IN
       All(rec, LAMBDA o :
             P.ok => /\ LineOk(o.r, P)
                     /\ o.r.raw = rec.s /\ o.r.prefix = ShownPrefix(P.prefix)
                     /\ o.r.kind = P.kind /\ o.r.word = P.word
                     /\ o.r.params = P.params /\ o.r.text = P.text /\ o.r.channel = P.channel)

\* C05: the same view answers the same in every build.
C05(rec) ==
    \A a, b \in DOMAIN rec.obs : a # b => Views(rec.obs[a]) \cap Views(rec.obs[b]) = {}

\* C06: in each build, all forms of the message answer the same.
Forms == {"ref", "owned", "into_owned", "as_ref", "round", "parse", "try_from", "clone_all", "from_part",
          "own", "clone", "debug", "detached", "detached_twice"}
\* The builds which gave this answer through one of the forms.
FormBuildsOf == TLCEval([w \in DOMAIN Whos |->
    {Whos[w][j][1] : j \in {n \in DOMAIN Whos[w] : Whos[w][n][2] \in Forms}}])
FormBuilds(o) == FormBuildsOf[o.who]
C06(rec) ==
    /\ rec.k \in {"line", "typed", "lookup"} =>
         \A a, b \in DOMAIN rec.obs : a # b => FormBuilds(rec.obs[a]) \cap FormBuilds(rec.obs[b]) = {}
    /\ rec.k = "typed" => By(rec, {"pieces"}, LAMBDA r : Answered(r) /\ r.same)

-----------------------------------------------------------------------------
(* Escapes: k = "unescape".                                                 *)

C07(rec) ==
    rec.k = "unescape" =>
       LET e == Unescape(rec.s) IN
       /\ All(rec, LAMBDA o : Answered(o.r) /\ o.r.text = e)
       /\ By(rec, {"lazy", "lazy_owned"}, LAMBDA r : r.alloc => NeedsUnescape(rec.s))

-----------------------------------------------------------------------------
(* Typed messages: k = "typed".                                             *)

Typings == {"ref", "owned", "parse", "try_from"}
Own == {"own", "ref", "owned"}
Kinds == {"ClearChat", "ClearMsg", "GlobalUserState", "Join", "Notice", "Part", "Ping", "Pong",
          "Privmsg", "RoomState", "UserNotice", "UserState", "Whisper"}
ChatKinds == {"Privmsg", "Whisper", "Notice", "Join", "Part", "Ping", "Pong"}
StateKinds == {"ClearChat", "ClearMsg", "RoomState", "UserState", "GlobalUserState"}
BadgeKinds == {"Privmsg", "Whisper", "UserNotice", "UserState", "GlobalUserState"}
SameKind(r, e) == Answered(r) /\ r.kind = e.kind
Same(r, e) == SameKind(r, e) /\ (e.kind = "Err" \/ r.f = e.f)
Without(f, x) == [d \in DOMAIN f \ {x} |-> f[d]]
SameFields(r, e) == SameKind(r, e) /\ Without(r.f, "badges") = Without(e.f, "badges")

C08(rec) ==
    rec.k = "typed" =>
       LET e == Typed(Parse(rec.s)) IN
       /\ By(rec, Typings, LAMBDA r : SameKind(r, e) /\ (e.kind = "Other" => r = e))
       /\ By(rec, {"accepts"}, LAMBDA r : Answered(r) /\ r.kinds = IF e.kind \in Kinds THEN <<e.kind>> ELSE <<>>)
Fields(rec, ks) ==
    rec.k = "typed" =>
       LET e == Typed(Parse(rec.s)) IN
       IF e.kind \in ks THEN By(rec, Own, LAMBDA r : SameFields(r, e))
       \* a message without one of its parts has nothing that its field could equal
       ELSE By(rec, Own, LAMBDA r : Answered(r) /\ r.kind \notin ks)
LevelNames == <<"ONE", "TWO", "THREE", "FOUR", "FIVE", "SIX", "SEVEN", "EIGHT", "NINE", "TEN">>
C09(rec) ==
    /\ Fields(rec, ChatKinds)
    /\ rec.k = "levels" => By(rec, {"levels"}, LAMBDA r :
          Answered(r) /\ \A n \in DOMAIN r.all : r.all[n] = IF n <= 10
                                     THEN Some([name |-> LevelNames[n], debug |-> LevelNames[n], back |-> TRUE])
                                     ELSE None)
C10(rec) == Fields(rec, StateKinds)
C11(rec) == Fields(rec, {"UserNotice"})
C12(rec) ==
    rec.k = "typed" =>
       LET e == Typed(Parse(rec.s)) IN
       e.kind \in BadgeKinds => By(rec, Own, LAMBDA r : SameKind(r, e) /\ r.f.badges = e.f.badges)

\* C13: what comes back from a serialised form is the message itself.
Codecs == {"serde_text", "serde_pretty", "serde_detached", "serde_value", "serde_binary", "serde_twice"}
C13(rec) ==
    rec.k = "typed" =>
       /\ By(rec, Codecs, LAMBDA r : Answered(r) /\ r.kind \notin {"CodecError", "NotEqual"})
       /\ \A a, b \in DOMAIN rec.obs :
             (a # b /\ "own" \in Views(rec.obs[a])) => Views(rec.obs[b]) \cap Codecs = {}
                                                       \/ Builds(rec.obs[a]) \cap Builds(rec.obs[b]) = {}
       /\ By(rec, {"pieces"}, LAMBDA r : Answered(r) /\ r.coded)

Judge(rec) ==
    CASE Property = "C01" -> C01(rec) [] Property = "C02" -> C02(rec) [] Property = "C03" -> C03(rec)
      [] Property = "C04" -> C04(rec) [] Property = "C05" -> C05(rec) [] Property = "C06" -> C06(rec)
      [] Property = "C07" -> C07(rec) [] Property = "C08" -> C08(rec) [] Property = "C09" -> C09(rec)
      [] Property = "C10" -> C10(rec) [] Property = "C11" -> C11(rec) [] Property = "C12" -> C12(rec)
      [] Property = "C13" -> C13(rec)

-----------------------------------------------------------------------------
\* (TLC evaluates a constant definition again and again if one of its bound
\* names is also the name of a variable: hence a name used nowhere else.)
VARIABLE visited
Init == visited \in 1..(IF Len(Recs) < Stride THEN Len(Recs) ELSE Stride)
Next == visited + Stride <= Len(Recs) /\ visited' = visited + Stride
Spec == Init /\ [][Next]_visited
Conforms == Judge(Recs[visited]) \/ PrintT(<<"REJECT", Recs[visited].i>>)
=============================================================================

------------------------------ MODULE Machine -------------------------------
(***************************************************************************)
(* A line read character by character: the parser as a state machine, and  *)
(* the tag section read in chunks as a vector machine does.                *)
(*                                                                         *)
(* Each behaviour of Spec types a line.  Every state is checked: what the  *)
(* machine would say if the line ended here is what Irc!Parse says, and    *)
(* reading the tags in chunks of every width from every alignment gives    *)
(* the same tags.                                                          *)
(***************************************************************************)
EXTENDS Irc

CONSTANTS Letters, MaxLen, Widths, Unroll

-----------------------------------------------------------------------------
(* The machine.  ph: what the next character belongs to.                    *)

Reading == [ph |-> "line", n |-> 0,                  \* characters read
            key |-> 2, eq |-> 0, tags |-> <<>>,      \* start of the key, its '='
            from |-> 1,                              \* start of the part being read
            nickEnd |-> 0, nick |-> None, user |-> None, hostAt |-> 0,
            prefix |-> None, word |-> None, channel |-> None, colon |-> 0]

Cut(s, a, b) == SubSeq(s, a, b)
PairTo(m, s, last) == IF m.eq = 0 THEN m.tags
                      ELSE Append(m.tags, <<Cut(s, m.key, m.eq - 1), Cut(s, m.eq + 1, last)>>)

\* The part which begins with character c at position n, after the tags or after nothing.
Begun(m, c, n) == IF c = COLON THEN [m EXCEPT !.ph = "prefix", !.from = n, !.hostAt = n + 1]
                 ELSE [m EXCEPT !.ph = "word", !.from = n]
Body(m, s, c, n) ==
    IF c = SP THEN [m EXCEPT !.ph = "args", !.word = Some(Cut(s, m.from, n - 1))] ELSE m

Feed(m0, s, c) ==
    LET n == m0.n + 1
        m == [m0 EXCEPT !.n = n]
    IN CASE m.ph = "line" -> IF c = AT THEN [m EXCEPT !.ph = "tags"]
                             ELSE LET h == Begun(m, c, n) IN IF h.ph = "word" THEN Body(h, s, c, n) ELSE h
         [] m.ph = "tags" ->
              CASE c = SP -> [m EXCEPT !.ph = "tagged", !.tags = PairTo(m, s, n - 1), !.from = n + 1]
                [] c = EQS /\ m.eq = 0 -> [m EXCEPT !.eq = n]
                [] c = SEMI /\ m.eq # 0 -> [m EXCEPT !.tags = PairTo(m, s, n - 1), !.eq = 0, !.key = n + 1]
                [] OTHER -> m
         [] m.ph = "tagged" -> LET h == Begun(m, c, n) IN IF h.ph = "word" THEN Body(h, s, c, n) ELSE h
         [] m.ph = "prefix" ->
              CASE c = SP -> [m EXCEPT !.ph = "headed", !.from = n + 1,
                                       !.prefix = Some([nick |-> m.nick, user |-> m.user, host |-> Cut(s, m.hostAt, n - 1)])]
                [] c = AT -> [m EXCEPT !.hostAt = n + 1,
                                       !.user = IF m.nickEnd # 0 THEN Some(Cut(s, m.nickEnd + 1, n - 1)) ELSE @,
                                       !.nick = IF m.nickEnd # 0 THEN @ ELSE Some(Cut(s, m.from + 1, n - 1))]
                [] c = BANG -> [m EXCEPT !.nick = Some(Cut(s, m.from + 1, n - 1)), !.nickEnd = n]
                [] OTHER -> m
         [] m.ph = "headed" -> Body([m EXCEPT !.ph = "word"], s, c, n)
         [] m.ph = "word" -> Body(m, s, c, n)
         [] m.ph = "args" -> IF c = HASH THEN [m EXCEPT !.ph = "channel", !.from = n]
                             ELSE [m EXCEPT !.ph = "params", !.from = n, !.colon = IF c = COLON THEN n ELSE 0]
         [] m.ph = "channel" -> IF c = SP THEN [m EXCEPT !.ph = "params", !.channel = Some(Cut(s, m.from, n - 1)), !.from = n + 1] ELSE m
         [] m.ph = "params" -> IF c = COLON /\ m.colon = 0 THEN [m EXCEPT !.colon = n] ELSE m

\* What it says if the line ends here.
Finish(m, s) ==
    LET unended == m.ph \in {"tags", "prefix"}           \* what looked like tags or a prefix is the command
        word == IF m.word # None THEN m.word[1]
                ELSE IF unended THEN Cut(s, IF m.ph = "tags" THEN 1 ELSE m.from, m.n)
                ELSE IF m.ph = "word" THEN Cut(s, m.from, m.n) ELSE <<>>
        params == IF m.ph = "params" /\ m.from <= m.n THEN Some(Cut(s, m.from, m.n)) ELSE None
    IN IF word = <<>> THEN NoMessage
       ELSE [ok |-> TRUE, tags |-> IF m.ph = "tags" THEN <<>> ELSE m.tags, prefix |-> m.prefix, word |-> word,
             channel |-> IF m.ph = "channel" THEN Some(Cut(s, m.from, m.n)) ELSE m.channel,
             params |-> params,
             text |-> IF params = None THEN None ELSE IF m.colon = 0 THEN params ELSE Some(Cut(s, m.colon + 1, m.n))]
Shape(p) == IF ~p.ok THEN NoMessage
            ELSE [ok |-> TRUE, tags |-> p.tags, prefix |-> p.prefix, word |-> p.word, channel |-> p.channel,
                  params |-> p.params, text |-> p.text]

-----------------------------------------------------------------------------
(* Reading tags in chunks of w characters, 0-based offsets as in registers. *)

At(s, i) == s[i + 1]
FirstIn(s, c, from, to) == LET I == {i \in from..(to - 1) : At(s, i) = c}     \* -1 if there is none
                           IN IF I = {} THEN -1 ELSE CHOOSE i \in I : \A j \in I : i <= j

\* The first c in s, looking at w characters at a time; s starts `align` characters after a boundary.
\* Steps: short texts one by one; the first chunk; unrolled groups from the next boundary; single chunks; a last
\* chunk which overlaps.
FindFirst(s, c, w, align) ==
    LET len == Len(s)
        group == Unroll * w
        RECURSIVE groups(_)
        groups(at) == IF at + group < len
                      THEN LET p == FirstIn(s, c, at, at + group) IN IF p >= 0 THEN <<p, at>> ELSE groups(at + group)
                      ELSE <<-1, at>>
        RECURSIVE singles(_)
        singles(at) == IF at + w <= len
                       THEN LET p == FirstIn(s, c, at, at + w) IN IF p >= 0 THEN <<p, at>> ELSE singles(at + w)
                       ELSE <<-1, at>>
        first == FirstIn(s, c, 0, w)
        g == groups(w - align)
        t == singles(g[2])
    IN IF len < w THEN FirstIn(s, c, 0, len)
       ELSE IF first >= 0 THEN first
       ELSE IF g[1] >= 0 THEN g[1]
       ELSE IF t[1] >= 0 THEN t[1]
       ELSE IF t[2] < len THEN FirstIn(s, c, len - w, len)
       ELSE -1

\* One chunk: two sets of matches, from which everything up to the match used is cleared.
Chunk(st, s, from, to) ==
    LET RECURSIVE go(_, _)
        go(x, at) ==   \* matches before `at` are cleared
            LET p == FirstIn(s, IF x.eq = -1 THEN EQS ELSE SEMI, at, to) IN
            IF p = -1 THEN x
            ELSE IF x.eq = -1 THEN go([x EXCEPT !.eq = p], p + 1)
            ELSE go([key |-> p + 1, eq |-> -1,
                     out |-> Append(x.out, <<Cut(s, x.key + 1, x.eq), Cut(s, x.eq + 2, p)>>)], p + 1)
    IN go(st, from)
\* The tags of a body: whole chunks while more than one is left, then the rest.
ChunkedPairs(s, w) ==
    LET RECURSIVE whole(_, _)
        whole(st, at) == IF at + w < Len(s) THEN whole(Chunk(st, s, at, at + w), at + w)
                         ELSE IF at < Len(s) THEN Chunk(st, s, at, Len(s)) ELSE st
        st == whole([key |-> 0, eq |-> -1, out |-> <<>>], 0)
    IN IF st.eq = -1 THEN st.out ELSE Append(st.out, <<Cut(s, st.key + 1, st.eq), Cut(s, st.eq + 2, Len(s))>>)
\* Where the tags end, counted in characters after the '@' (-1: no tags), and the tags.
ChunkedTags(s, w, align) ==
    IF s = <<>> \/ s[1] # AT THEN [end |-> -1, tags |-> <<>>]
    ELSE LET b == From(s, 2)
             end == FindFirst(b, SP, w, align)
         IN IF end = -1 THEN [end |-> -1, tags |-> <<>>] ELSE [end |-> end, tags |-> ChunkedPairs(UpTo(b, end), w)]

-----------------------------------------------------------------------------
VARIABLES typed, machine
Init == typed = <<>> /\ machine = Reading
Next == /\ Len(typed) < MaxLen
        /\ \E c \in Letters : /\ typed' = Append(typed, c)
                              /\ machine' = Feed(machine, typed', c)
Spec == Init /\ [][Next]_<<typed, machine>>

SameAsParse == Finish(machine, typed) = Shape(Parse(typed))
SameInChunks ==
    \A w \in Widths : \A align \in 0..(w - 1) :
        LET t == ChunkedTags(typed, w, align) IN
        /\ (t.end >= 0) = HasTags(typed)
        /\ t.end >= 0 => t.tags = Tags(typed) /\ t.end + 2 = Len(TagBody(typed)) + 2
\* What was read is never taken back: the parts already complete stay as they are.
Committed(m) == <<m.tags, m.prefix, m.word>>
Stable == [][/\ machine.word # None => machine'.word = machine.word
             /\ machine.prefix # None => machine'.prefix = machine.prefix
             /\ IsPrefix(machine.tags, machine'.tags)]_machine
=============================================================================

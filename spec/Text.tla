-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text as sequences of Unicode scalar values, and the few operations on   *)
(* it that the specification of the parser, of the typed messages and of   *)
(* the client needs.  Positions are 1-based; 0 means "not found".          *)
(* An optional value is <<>> (absent) or <<x>> (present).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
\* TLCEval: without it TLC keeps these functions as unevaluated closures.
AsciiCode == TLCEval([c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
                31 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c)])

\* The text of a TLA+ string literal.
T(str) == TLCEval([i \in 1..Len(str) |-> AsciiCode[SubSeq(str, i, i)]])

CR == 13  LF == 10  SP == 32  AT == 64  COLON == 58  SEMI == 59  EQS == 61
HASH == 35  BANG == 33  COMMA == 44  SLASH == 47  BSL == 92  DQ == 34
TCOMMA == 11805            \* U+2E1D, Twitch's stand-in for a comma

None == <<>>
Some(x) == <<x>>
IsSome(o) == o # <<>>
Get(o) == o[1]
OrElse(o, d) == IF o = <<>> THEN d ELSE o[1]

\* First position >= from at which c occurs, or 0.
Pos(s, c, from) == IF from > Len(s) THEN 0
                   ELSE SelectInSubSeq(s, from, Len(s), LAMBDA x : x = c)
LastPos(s, c) == SelectLastInSeq(s, LAMBDA x : x = c)
From(s, i) == SubSeq(s, i, Len(s))
UpTo(s, i) == SubSeq(s, 1, i)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
OccursAt(s, p, i) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
FirstSub(s, p) == LET I == {i \in 1..(Len(s) - Len(p) + 1) : OccursAt(s, p, i)}
                  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Occurs(s, p) == Len(p) <= Len(s) /\ FirstSub(s, p) # 0

\* Rust's str::split(c): always at least one piece.
Split(s, c) ==
    LET cuts == TLCEval(<<0>> \o SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = c) \o <<Len(s) + 1>>)
    IN [n \in 1..(Len(cuts) - 1) |-> SubSeq(s, cuts[n] + 1, cuts[n + 1] - 1)]

\* Rust's str::split_once(c): <<>> or <<before, after>>
SplitOnce(s, c) == LET p == Pos(s, c, 1) IN
    IF p = 0 THEN <<>> ELSE <<SubSeq(s, 1, p - 1), From(s, p + 1)>>

\* Characters with the Unicode property White_Space.
White == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
           \cup 8192..8202
RECURSIVE WordsFrom(_, _)
WordsFrom(s, i) ==
    LET a == IF i > Len(s) THEN 0 ELSE SelectInSubSeq(s, i, Len(s), LAMBDA x : x \notin White)
        b == IF a = 0 THEN 0 ELSE SelectInSubSeq(s, a, Len(s), LAMBDA x : x \in White)
    IN IF a = 0 THEN <<>>
       ELSE IF b = 0 THEN <<From(s, a)>>
       ELSE <<SubSeq(s, a, b - 1)>> \o WordsFrom(s, b)
Words(s) == WordsFrom(s, 1)
Nth(seq, n) == IF n <= Len(seq) THEN Some(seq[n]) ELSE None

-----------------------------------------------------------------------------
(* Decimal numbers as digit texts: TLC's integers have 32 bits.             *)

IsDigit(c) == c >= 48 /\ c <= 57
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
StripZeros(s) == LET p == SelectInSeq(s, LAMBDA x : x # 48)
                 IN IF p = 0 THEN <<48>> ELSE From(s, p)
DigitsLE(a, b) ==   \* both without leading zeros
    \/ Len(a) < Len(b)
    \/ Len(a) = Len(b) /\ \/ a = b
                          \/ LET d == CHOOSE i \in 1..Len(a) : a[i] # b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
                             IN a[d] < b[d]
U8Max == T("255")
U64Max == T("18446744073709551615")
I64Max == T("9223372036854775807")
I64MinAbs == T("9223372036854775808")
MINUS == 45   PLUS == 43

\* Rust's FromStr for unsigned integers: optional '+', at least one digit.
ParseU(s, max) ==
    LET d == IF s # <<>> /\ s[1] = PLUS THEN From(s, 2) ELSE s
    IN IF ~AllDigits(d) THEN None
       ELSE LET n == StripZeros(d) IN IF DigitsLE(n, max) THEN Some(n) ELSE None
ParseU64(s) == ParseU(s, U64Max)
ParseU8(s) == ParseU(s, U8Max)

\* Rust's FromStr for i64; the result is a canonical signed digit text.
ParseI64(s) ==
    LET neg == s # <<>> /\ s[1] = MINUS
        d == IF s # <<>> /\ s[1] \in {MINUS, PLUS} THEN From(s, 2) ELSE s
    IN IF ~AllDigits(d) THEN None
       ELSE LET n == StripZeros(d) IN
            IF ~DigitsLE(n, IF neg THEN I64MinAbs ELSE I64Max) THEN None
            ELSE IF neg /\ n # <<48>> THEN Some(<<MINUS>> \o n) ELSE Some(n)
IsNegative(n) == n[1] = MINUS
IsZero(n) == n = <<48>>

\* n * k for a digit text n and a small natural k, with a final carry.
MulSmall(n, k) ==
    LET step(acc, c) == LET v == (c - 48) * k + acc.carry
                        IN [carry |-> v \div 10, out |-> <<48 + (v - 10 * (v \div 10))>> \o acc.out]
        r == FoldLeft(step, [carry |-> 0, out |-> <<>>], Reverse(n))
        RECURSIVE digits(_)
        digits(v) == IF v = 0 THEN <<>> ELSE digits(v \div 10) \o <<48 + (v - 10 * (v \div 10))>>
    IN StripZeros(digits(r.carry) \o r.out)
MinDigits(a, b) == IF DigitsLE(a, b) THEN a ELSE b

\* Milliseconds that chrono can represent as a date.
TsMax == T("8210266876799999")
TsMinAbs == T("8334601228800000")
ParseTimestamp(s) ==
    LET n == ParseI64(s) IN
    IF n = None THEN None
    ELSE LET v == Get(n) IN
         IF IsNegative(v) THEN (IF DigitsLE(From(v, 2), TsMinAbs) THEN n ELSE None)
         ELSE IF DigitsLE(v, TsMax) THEN n ELSE None

\* A tag flag: "1" and any other positive number up to 255 is true.
ParseBool(s) == LET n == ParseU8(s) IN n # None /\ ~IsZero(Get(n))
=============================================================================

------------------------------- MODULE Bypass -------------------------------
(***************************************************************************)
(* The same-message bypass: values which are appended to a text so that it *)
(* is never sent twice in a row.  A slot holds one bypass; slots are made  *)
(* anew or as copies of others.                                            *)
(***************************************************************************)
EXTENDS Text

\* " " and U+2800, in UTF-8.
Suffix == <<32, 226, 160, 128>>
BypassStart == [slots |-> <<FALSE>>, bad |-> {}, at |-> 0]
Value(append) == IF append THEN Suffix ELSE <<>>
BypassStep(b1, e) ==
    LET b == [b1 EXCEPT !.at = @ + 1] IN
    CASE e.e = "get" -> [b EXCEPT !.slots[e.n] = ~@,
                                  !.bad = IF e.v = Value(b.slots[e.n]) THEN @
                                          ELSE @ \cup {<<"C25", b.at, "wrong value">>}]
      [] e.e = "copy" -> [b EXCEPT !.slots = Append(@, b.slots[e.n])]
      [] e.e = "new" -> [b EXCEPT !.slots = Append(@, FALSE)]
BypassBroken(ev) == FoldLeft(BypassStep, BypassStart, ev).bad
=============================================================================

------------------------------- MODULE GenText -------------------------------
(***************************************************************************)
(* All strings over an alphabet, up to a length, that start with a given      *)
(* one, as a machine that appends one character at a time.  Checked on the     *)
(* way: a string that denotes a value is the printed form of that value, and    *)
(* of no other; the printed form is parsed back.                                *)
(***************************************************************************)
EXTENDS Signature, Json
CONSTANTS Kind,          \* "desc" or a signature kind
          Alphabet,      \* characters
          Start,         \* first character, or 0
          MaxLen
VARIABLE s
Init == s = IF Start = 0 THEN <<>> ELSE <<Start>>
Next == Len(s) < MaxLen /\ \E x \in Alphabet : s' = Append(s, x)
Denoted == IF Kind = "desc" THEN Desc(s) ELSE Sig(Kind, s)
Printed(v) == IF Kind = "desc" THEN PrintDesc(v) ELSE PrintSig(Kind, v)
Canonical == LET d == Denoted IN d[1] = 1 => Printed(d[2]) = s
Emit == PrintT("CASE " \o ToJson(<<"parse", Kind, s>>))
=============================================================================

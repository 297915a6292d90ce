------------------------------ MODULE Wtf8Auto ------------------------------
(***************************************************************************)
(* The byte-at-a-time WTF-8 validator as a transition system over every     *)
(* byte string up to MaxLen built from the boundary bytes of all ranges.    *)
(***************************************************************************)
EXTENDS Text, Json, TLC
CONSTANTS MaxLen, Alphabet, Emit
VARIABLES buf, q
vars == <<buf, q>>
Init == buf = <<>> /\ q = "s0"
Feed(b) == /\ Len(buf) < MaxLen
           /\ q # "bad"
           /\ buf' = Append(buf, b)
           /\ q' = Delta(q, b)
Next == \E b \in Alphabet : Feed(b)
Spec == Init /\ [][Next]_vars

(* The automaton decides exactly the declarative definition.                *)
AutoIsDef == Accepting(q) <=> WellFormed(buf)
(* A rejected byte can never be completed: no extension of buf by up to two  *)
(* alphabet bytes is well formed (prefix-closedness of "live").             *)
BadIsFinal == q = "bad" =>
   \A a, b \in {65, 128, 160, 191} : ~WellFormed(buf \o <<a>>) /\ ~WellFormed(buf \o <<a, b>>)
(* Every well-formed string is the encoding of its decoding.                *)
RoundTrip == Accepting(q) => EncW(DecG(buf).s) = buf
(* Emission of the explored space as conformance cases.                     *)
EmitCase == ~Emit \/ PrintT("CASE " \o ToJson(<<buf, Accepting(q)>>))
=============================================================================

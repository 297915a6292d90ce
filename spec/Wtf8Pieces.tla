----------------------------- MODULE Wtf8Pieces -----------------------------
(***************************************************************************)
(* The validator automaton fed with whole pieces, for contexts that need     *)
(* many bytes: surrogates next to each other, to broken sequences, and to    *)
(* code points of every length.                                              *)
(***************************************************************************)
EXTENDS Text, Json, TLC
LongPieces == {<<65>>, <<0>>, <<128>>, <<195, 169>>, <<224, 160, 128>>, <<237, 159, 191>>, <<237, 160, 128>>, <<237, 175, 191>>, <<237, 160, 65>>, <<237, 175, 192>>, <<237, 160>>, <<237, 176, 128>>, <<237, 191, 191>>, <<237, 176, 65>>, <<237>>, <<238, 128, 128>>, <<240, 144, 128, 128>>, <<244, 143, 191, 191>>, <<244, 144, 128, 128>>, <<241, 128, 128>>}
CONSTANTS Pieces, MaxPieces, Emit
VARIABLES n, buf, q
vars == <<n, buf, q>>
RECURSIVE RunFrom(_, _, _)
RunFrom(s, p, i) == IF i > Len(p) THEN s ELSE RunFrom(Delta(s, p[i]), p, i + 1)
Init == n = 0 /\ buf = <<>> /\ q = "s0"
Feed == /\ n < MaxPieces
        /\ \E p \in Pieces : buf' = buf \o p /\ q' = RunFrom(q, p, 1)
        /\ n' = n + 1
Spec == Init /\ [][Feed]_vars
View == buf
AutoIsDef == Accepting(q) <=> WellFormed(buf)
RoundTrip == Accepting(q) => EncW(DecG(buf).s) = buf
EmitCase == ~Emit \/ PrintT("CASE " \o ToJson(<<buf, Accepting(q)>>))
=============================================================================

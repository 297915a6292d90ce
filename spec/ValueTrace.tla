----------------------------- MODULE ValueTrace -----------------------------
(***************************************************************************)
(* Validates recorded operations on single values: descriptors, signatures, *)
(* method handles, stack-map frames, constant pools, floats.                *)
(***************************************************************************)
EXTENDS Values, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Chunk == IF N > 4000 THEN 100 ELSE IF N > 400 THEN 10 ELSE 1
VARIABLES l, last
Init == l = 0 /\ last = 0
Next == \/ l = 0 /\ \E i \in 1..N : (i - 1) % Chunk = 0 /\ l' = -i /\ last' = i + Chunk - 1
        \/ l < 0 /\ l' = -l /\ UNCHANGED last
        \/ l > 0 /\ l < last /\ l < N /\ l' = l + 1 /\ UNCHANGED last

Check == \/ l <= 0
         \/ LET v == Verdict(Trace[l]) IN
            \/ v = "ok"
            \/ v = "open" /\ PrintT("OPEN " \o ToString(l))
            \/ v = "bad" /\ PrintT("REJECT " \o ToString(l))
=============================================================================

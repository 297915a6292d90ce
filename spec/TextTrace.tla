----------------------------- MODULE TextTrace ------------------------------
(***************************************************************************)
(* Validates recorded calls of the text functions against Text.  Each line  *)
(* of the trace is one independent call with its result.                     *)
(***************************************************************************)
EXTENDS Text, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Chunk == 500
VARIABLES l, last
Init == l \in {i \in 1..N : (i - 1) % Chunk = 0} /\ last = l + Chunk - 1
Next == l < last /\ l < N /\ l' = l + 1 /\ UNCHANGED last

OkEnc(cps, r) == r[1] = "ok" /\ r[2] = EncM(cps)
OkDec(b, r) == LET d == DecM(b) IN
   /\ r[1] \in {"ok", "err"}
   /\ r[1] = "ok" => (d.ok /\ r[2] = d.s /\ r[3] = EncW(d.s))
   /\ (d.ok /\ ~d.lenient) => r[1] = "ok"
OkVal(b, r) ==
   /\ r[1] \in {"ok", "err"}
   /\ (r[1] = "ok") = WellFormed(b)
   /\ r[1] = "err" => (r[2] <= Len(b) /\ WellFormed(SubSeq(b, 1, r[2])))
OkEvent(e) == CASE e[1] = "enc" -> OkEnc(e[2], e[3])
                [] e[1] = "dec" -> OkDec(e[2], e[3])
                [] e[1] = "val" -> OkVal(e[2], e[3])
                [] OTHER -> FALSE
Check == OkEvent(Trace[l].e) \/ PrintT("REJECT " \o ToString(l))
=============================================================================

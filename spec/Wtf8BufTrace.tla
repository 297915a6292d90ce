---------------------------- MODULE Wtf8BufTrace ----------------------------
(***************************************************************************)
(* Validates recorded histories of a real string object: every call must be  *)
(* the machine's transition (result and all observers).                      *)
(***************************************************************************)
EXTENDS Wtf8Buf, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, str
Init == t \in 1..Len(Trace) /\ i = 1 /\ str = <<>>
H == Trace[t].h
Matches(c) == LET p == Post(str, c[1], c[2]) IN c[3] = p.r /\ c[4] = Obs(p.s)
Step == /\ i <= Len(H)
        /\ IF Matches(H[i]) THEN str' = Post(str, H[i][1], H[i][2]).s /\ i' = i + 1
           ELSE PrintT("REJECT " \o ToString(t) \o " " \o ToString(i)) /\ i' = Len(H) + 2 /\ str' = str
        /\ UNCHANGED t
Next == Step
Inv == Canonical(str) /\ WellFormed(EncW(str))
=============================================================================

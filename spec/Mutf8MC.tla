------------------------------ MODULE Mutf8MC -------------------------------
(***************************************************************************)
(* Modified UTF-8 as a transition system: a decoder fed with pieces (valid   *)
(* sequences, broken ones, boundary bytes) and an encoder fed with code      *)
(* points.  Every reachable buffer is one conformance case.                  *)
(***************************************************************************)
EXTENDS Text, Json, TLC
BytePieces == {<<0>>, <<65>>, <<127>>, <<128>>, <<143>>, <<159>>, <<160>>, <<175>>, <<176>>, <<191>>, <<192>>, <<193>>, <<194>>, <<224>>, <<237>>, <<239>>, <<240>>, <<244>>, <<245>>}
LongPieces == {<<0>>, <<65>>, <<128>>, <<192>>, <<192, 128>>, <<193, 191>>, <<195, 169>>, <<223>>, <<224, 128, 128>>, <<224, 160, 128>>, <<237>>, <<237, 160>>, <<237, 176>>, <<237, 159, 191>>, <<237, 160, 128>>, <<237, 175, 191>>, <<237, 176, 128>>, <<237, 191, 191>>, <<237, 160, 65>>, <<237, 160, 192>>, <<237, 176, 192>>, <<237, 176, 65>>, <<239, 191, 191>>, <<240, 144, 128, 128>>, <<244, 144, 128, 128>>}
CONSTANTS Pieces, MaxPieces, Cps, MaxCps, Emit
VARIABLES mode, n, buf
vars == <<mode, n, buf>>
Init == mode \in {"dec", "enc"} /\ n = 0 /\ buf = <<>>
FeedBytes == /\ mode = "dec" /\ n < MaxPieces
             /\ \E p \in Pieces : buf' = buf \o p
             /\ n' = n + 1 /\ UNCHANGED mode
PushCp == /\ mode = "enc" /\ n < MaxCps
          /\ \E c \in Cps : buf' = Append(buf, c) /\ Canonical(buf')
          /\ n' = n + 1 /\ UNCHANGED mode
Next == FeedBytes \/ PushCp
Spec == Init /\ [][Next]_vars
View == <<mode, buf>>

D == DecM(buf)
Verdict == IF ~D.ok THEN "err" ELSE IF D.lenient THEN "open" ELSE "ok"
EncodeThenDecode == mode = "enc" => LET d == DecM(EncM(buf)) IN d.ok /\ ~d.lenient /\ d.s = buf
CleanBytes == mode = "enc" => \A i \in 1..Len(EncM(buf)) : EncM(buf)[i] # 0 /\ EncM(buf)[i] < 240
DecodeThenEncode == (mode = "dec" /\ Verdict = "ok") => EncM(D.s) = buf
ResultCanonical == (mode = "dec" /\ D.ok) => Canonical(D.s) /\ WellFormed(EncW(D.s))
(* A strict decode is exactly the WTF-8 meaning of the unpaired, NUL-free text *)
AgreesWithWtf8 == (mode = "dec" /\ WellFormed(buf) /\ \A i \in 1..Len(buf) : buf[i] # 0 /\ buf[i] < 240)
                  => (Verdict = "ok" /\ D.s = DecG(buf).s)
Case == IF mode = "dec"
        THEN <<"dec", buf, Verdict, IF D.ok THEN D.s ELSE <<>>, IF D.ok THEN EncW(D.s) ELSE <<>> >>
        ELSE <<"enc", buf, EncM(buf)>>
EmitCase == ~Emit \/ PrintT("CASE " \o ToJson(Case))
=============================================================================

-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Strings as the class-file format and coffer's WTF-8 type see them.      *)
(* A string is a sequence of code points (0..16^6, surrogates included).   *)
(* This module is the reference semantics for WTF-8, modified UTF-8 and    *)
(* UTF-16; everything is executable by TLC.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, Loops

MaxCp == 1114111                      \* U+10FFFF
IsLead(c)  == c >= 55296 /\ c <= 56319     \* D800..DBFF
IsTrail(c) == c >= 56320 /\ c <= 57343     \* DC00..DFFF
IsSurr(c)  == c >= 55296 /\ c <= 57343
PairCp(l, t) == 65536 + (l - 55296) * 1024 + (t - 56320)
LeadOf(c)  == 55296 + ((c - 65536) \div 1024)
TrailOf(c) == 56320 + ((c - 65536) % 1024)

IsCont(b) == b >= 128 /\ b <= 191

(* Joining: a lead directly followed by a trail is one supplementary code  *)
(* point.  The left-to-right fold is what "concatenating ill-formed UTF-16"*)
(* means; JoinPush is the one-step version used by the string machine.     *)
JoinPush(s, c) ==
  IF s # <<>> /\ IsLead(s[Len(s)]) /\ IsTrail(c)
  THEN [s EXCEPT ![Len(s)] = PairCp(@, c)]
  ELSE Append(s, c)

Join(s) == Fold(JoinPush, <<>>, s)
Canonical(s) == \A i \in 1..(Len(s) - 1) : ~(IsLead(s[i]) /\ IsTrail(s[i + 1]))

(* Generalised UTF-8 of one code point (surrogates as three bytes).        *)
Enc1(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

(* Modified UTF-8 of one code point: NUL as C0 80, supplementary code      *)
(* points as the three-byte forms of their two surrogates.                 *)
EncM1(c) ==
  IF c = 0 THEN <<192, 128>>
  ELSE IF c < 65536 THEN Enc1(c)
  ELSE Enc1(LeadOf(c)) \o Enc1(TrailOf(c))

Utf16Of1(c) == IF c < 65536 THEN <<c>> ELSE <<LeadOf(c), TrailOf(c)>>

EncW(s) == Fold(LAMBDA a, c : a \o Enc1(c), <<>>, s)
EncM(s) == Fold(LAMBDA a, c : a \o EncM1(c), <<>>, s)
Utf16(s) == Fold(LAMBDA a, c : a \o Utf16Of1(c), <<>>, s)

Lossy(s) == [i \in 1..Len(s) |-> IF IsSurr(s[i]) THEN 65533 ELSE s[i]]

(* One generalised-UTF-8 code point at position i of b: <<cp, next>>, or    *)
(* <<-1, i>> if none starts there (shortest form and range enforced).       *)
At(b, i) == IF i >= 1 /\ i <= Len(b) THEN b[i] ELSE -1
DecG1(b, i) ==
  LET b1 == At(b, i)  b2 == At(b, i + 1)  b3 == At(b, i + 2)  b4 == At(b, i + 3)
      bad == <<-1, i>> IN
  IF b1 < 0 THEN bad
  ELSE IF b1 < 128 THEN <<b1, i + 1>>
  ELSE IF b1 < 194 THEN bad
  ELSE IF b1 < 224 THEN
       IF IsCont(b2) THEN <<(b1 - 192) * 64 + (b2 - 128), i + 2>> ELSE bad
  ELSE IF b1 < 240 THEN
       IF IsCont(b2) /\ IsCont(b3)
       THEN LET c == (b1 - 224) * 4096 + (b2 - 128) * 64 + (b3 - 128) IN
            IF c >= 2048 THEN <<c, i + 3>> ELSE bad
       ELSE bad
  ELSE IF b1 < 245 THEN
       IF IsCont(b2) /\ IsCont(b3) /\ IsCont(b4)
       THEN LET c == (b1 - 240) * 262144 + (b2 - 128) * 4096 + (b3 - 128) * 64 + (b4 - 128) IN
            IF c >= 65536 /\ c <= MaxCp THEN <<c, i + 4>> ELSE bad
       ELSE bad
  ELSE bad

(* A fold over the positions; a code point is taken where one starts.  The    *)
(* state is <<next start, or 0 once malformed, code points>>.                 *)
DecBy(One(_), b) ==
  LET Step(st, i) == IF st[1] # i THEN st
                     ELSE LET r == One(i) IN
                          IF r[1] < 0 THEN <<0, st[2]>> ELSE <<r[2], Append(st[2], r[1])>> IN
  Fold(Step, <<1, <<>>>>, [i \in 1..Len(b) |-> i])
DecG(b) == LET r == DecBy(LAMBDA i : DecG1(b, i), b) IN [ok |-> r[1] # 0, s |-> r[2]]

(* Well-formed WTF-8, declaratively: decodes, and no unjoined pair.         *)
WellFormed(b) == LET d == DecG(b) IN d.ok /\ Canonical(d.s)

(* Modified UTF-8.  Strict: exactly the JVM format.  "lenient" marks input   *)
(* outside it that the format forbids but whose plain-UTF-8 meaning is       *)
(* unambiguous (a raw zero byte, a four-byte form); the property leaves those*)
(* open.                                                                     *)
DecM1(b, i) ==
  LET b1 == At(b, i) IN
  IF b1 = 192 /\ At(b, i + 1) = 128 THEN <<0, i + 2>>
  ELSE DecG1(b, i)
DecM(b) ==
  LET r == DecBy(LAMBDA i : DecM1(b, i), b)
      ok == r[1] # 0 IN
  [ok |-> ok, lenient |-> ok /\ \E i \in 1..Len(b) : b[i] = 0 \/ b[i] >= 240, s |-> IF ok THEN Join(r[2]) ELSE <<>>]

(***************************************************************************)
(* The validator as a finite automaton (one transition per byte).  This is *)
(* the shape of an implementation; the model Wtf8Auto checks it against    *)
(* WellFormed.  States: s0 boundary; h boundary just after a lead; t1..t3  *)
(* n continuation bytes pending; e0,f0,f4 restricted second byte; ed / hed *)
(* after ED (hed: with a lead before it); sl last byte of a lead; bad sink. *)
(***************************************************************************)
AutoStates == <<"s0", "h", "t1", "t2", "t3", "e0", "f0", "f4", "ed", "hed", "sl", "bad">>
StartByte(q, b) ==
  IF b < 128 THEN "s0"
  ELSE IF b < 194 THEN "bad"
  ELSE IF b < 224 THEN "t1"
  ELSE IF b = 224 THEN "e0"
  ELSE IF b = 237 THEN (IF q = "h" THEN "hed" ELSE "ed")
  ELSE IF b < 240 THEN "t2"
  ELSE IF b = 240 THEN "f0"
  ELSE IF b < 244 THEN "t3"
  ELSE IF b = 244 THEN "f4"
  ELSE "bad"
Delta(q, b) ==
  CASE q \in {"s0", "h"} -> StartByte(q, b)
    [] q = "t1" -> IF IsCont(b) THEN "s0" ELSE "bad"
    [] q = "t2" -> IF IsCont(b) THEN "t1" ELSE "bad"
    [] q = "t3" -> IF IsCont(b) THEN "t2" ELSE "bad"
    [] q = "e0" -> IF b >= 160 /\ b <= 191 THEN "t1" ELSE "bad"
    [] q = "f0" -> IF b >= 144 /\ b <= 191 THEN "t2" ELSE "bad"
    [] q = "f4" -> IF b >= 128 /\ b <= 143 THEN "t2" ELSE "bad"
    [] q = "ed" -> IF b >= 160 /\ b <= 175 THEN "sl" ELSE IF IsCont(b) THEN "t1" ELSE "bad"
    [] q = "hed" -> IF b >= 160 /\ b <= 175 THEN "sl"
                    ELSE IF b >= 128 /\ b <= 159 THEN "t1" ELSE "bad"
    [] q = "sl" -> IF IsCont(b) THEN "h" ELSE "bad"
    [] OTHER -> "bad"
Accepting(q) == q \in {"s0", "h"}
=============================================================================

------------------------------ MODULE Wtf8Buf -------------------------------
(***************************************************************************)
(* The owned WTF-8 string as a state machine.  State: the code-point        *)
(* sequence it denotes.  Post(s, op, a) is the transition function: new     *)
(* state and result for operation op with argument a.  A result of           *)
(* <<"panic">> means the operation must refuse (cut inside a code point or   *)
(* out of range) and leave the string unchanged.                             *)
(***************************************************************************)
EXTENDS Text, FiniteSets

(* Byte offsets of the code-point boundaries of s.                           *)
RECURSIVE BoundsFrom(_, _, _)
BoundsFrom(s, i, p) == IF i > Len(s) THEN <<p>> ELSE <<p>> \o BoundsFrom(s, i + 1, p + Len(Enc1(s[i])))
Bounds(s) == BoundsFrom(s, 1, 0)
ByteLen(s) == LET b == Bounds(s) IN b[Len(b)]
IsBound(s, n) == \E i \in 1..(Len(s) + 1) : Bounds(s)[i] = n
BoundIdx(s, n) == (CHOOSE i \in 1..(Len(s) + 1) : Bounds(s)[i] = n) - 1
PrefixTo(s, n) == SubSeq(s, 1, BoundIdx(s, n))
Cut(s, m, n) == SubSeq(s, BoundIdx(s, m) + 1, BoundIdx(s, n))

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

(* Lexicographic order on code points: -1, 0, 1.                             *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF i > Len(a) THEN -1
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) == CmpFrom(a, b, 1)

RECURSIVE JoinAll(_, _, _)
JoinAll(acc, s, i) == IF i > Len(s) THEN acc ELSE JoinAll(JoinPush(acc, s[i]), s, i + 1)

R(s, r) == [s |-> s, r |-> r]
Panic(s) == R(s, <<"panic">>)
Ok(s) == R(s, <<"ok">>)

Post(s, op, a) ==
  CASE op = "push"      -> Ok(JoinPush(s, a[1]))
    [] op = "push_char" -> Ok(Append(s, a[1]))
    [] op = "push_str"  -> Ok(s \o a)                \* a: scalar values only
    [] op = "push_wtf8" -> Ok(JoinAll(s, a, 1))       \* a: canonical
    [] op = "extend"    -> Ok(JoinAll(s, a, 1))       \* a: any code points
    [] op = "from_iter" -> Ok(Join(a))
    [] op = "from_wide" -> Ok(Join(a))                \* a: UTF-16 code units
    [] op = "from_string" -> Ok(a)
    [] op = "from_borrowed" -> Ok(a)
    [] op = "clone_into" -> Ok(a)                     \* overwrite with canonical a
    [] op = "clear"     -> Ok(<<>>)
    [] op = "lower"     -> Ok(MapSeq(Lower, s))
    [] op = "upper"     -> Ok(MapSeq(Upper, s))
    [] op = "rebox"     -> Ok(s)
    [] op = "truncate"  -> IF IsBound(s, a[1]) THEN Ok(PrefixTo(s, a[1])) ELSE Panic(s)
    [] op = "slice"     -> IF a[1] <= a[2] /\ IsBound(s, a[1]) /\ IsBound(s, a[2])
                           THEN R(s, <<"str", Cut(s, a[1], a[2])>>) ELSE Panic(s)
    [] op = "slice_from" -> IF IsBound(s, a[1])
                           THEN R(s, <<"str", Cut(s, a[1], ByteLen(s))>>) ELSE Panic(s)
    [] op = "slice_to"  -> IF IsBound(s, a[1])
                           THEN R(s, <<"str", PrefixTo(s, a[1])>>) ELSE Panic(s)
    [] op = "ascii_at"  -> IF a[1] < ByteLen(s)
                           THEN R(s, <<"byte", LET b == EncW(s)[a[1] + 1] IN IF b < 128 THEN b ELSE 255>>)
                           ELSE Panic(s)
    [] op = "cmp"       -> R(s, <<"cmp", Cmp(s, a)>>)
    [] op = "eq_nocase" -> R(s, <<"bool", MapSeq(Lower, s) = MapSeq(Lower, a)>>)

(* Everything observable about a string in one tuple.                        *)
Obs(s) == << EncW(s), s, Utf16(s), Lossy(s),
             \A i \in 1..Len(s) : ~IsSurr(s[i]),
             \A i \in 1..Len(s) : s[i] < 128 >>
=============================================================================

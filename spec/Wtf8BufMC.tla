----------------------------- MODULE Wtf8BufMC ------------------------------
(* Exhaustive exploration of the string machine over a boundary alphabet.    *)
EXTENDS Wtf8Buf, Json, TLC
CONSTANTS Cps, MaxLen, ArgLen, Emit
VARIABLES str, last
vars == <<str, last>>

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Units == {c \in Cps : c < 65536}
Scalars == {c \in Cps : ~IsSurr(c)}
Canon(S, n) == {s \in Seqs(S, n) : Canonical(s)}
Offs == 0..(ByteLen(str) + 1)

Init == str = <<>> /\ last = <<>>
Do(op, a) == LET p == Post(str, op, a) IN
             /\ Len(p.s) <= MaxLen
             /\ str' = p.s
             /\ last' = <<str, op, a, p.r, p.s>>
Push == \E c \in Cps : Do("push", <<c>>)
PushChar == \E c \in Scalars : Do("push_char", <<c>>)
PushStr == \E a \in Seqs(Scalars, ArgLen) : Do("push_str", a)
PushWtf8 == \E a \in Canon(Cps, ArgLen) : Do("push_wtf8", a)
Extend == \E a \in Seqs(Cps, ArgLen) : Do("extend", a)
FromIter == \E a \in Seqs(Cps, ArgLen) : Do("from_iter", a)
FromWide == \E a \in Seqs(Units, ArgLen + 1) : Do("from_wide", a)
FromString == \E a \in Seqs(Scalars, ArgLen) : Do("from_string", a)
CloneInto == \E a \in Canon(Cps, ArgLen) : Do("clone_into", a)
Clear == Do("clear", <<>>)
CaseMap == Do("lower", <<>>) \/ Do("upper", <<>>) \/ Do("rebox", <<>>)
Truncate == \E n \in Offs : Do("truncate", <<n>>)
Slice == \E m, n \in Offs : Do("slice", <<m, n>>)
SliceHalf == \E n \in Offs : Do("slice_from", <<n>>) \/ Do("slice_to", <<n>>) \/ Do("ascii_at", <<n>>)
Compare == \E a \in Canon(Cps, ArgLen) : Do("cmp", a) \/ Do("eq_nocase", a)
Next == Push \/ PushChar \/ PushStr \/ PushWtf8 \/ Extend \/ FromIter \/ FromWide \/ FromString
        \/ CloneInto \/ Clear \/ CaseMap \/ Truncate \/ Slice \/ SliceHalf \/ Compare
Spec == Init /\ [][Next]_vars
View == str

WellFormedAlways == Canonical(str) /\ WellFormed(EncW(str))
Utf16Lossless == Join(Utf16(str)) = str
Mutf8Lossless == LET d == DecM(EncM(str)) IN d.ok /\ ~d.lenient /\ d.s = str
Mutf8Clean == \A i \in 1..Len(EncM(str)) : EncM(str)[i] # 0 /\ EncM(str)[i] < 240
LossyLen == Len(Lossy(str)) = Len(str)
(* Slices are well formed; a refused operation changes nothing.  (Action       *)
(* constraints, since the view hides the last call.)                          *)
SliceWF == Assert(last'[4][1] = "str" => WellFormed(EncW(last'[4][2])), "slice")
RefusalIsNoop == Assert(last'[4][1] = "panic" => str' = str, "refusal")
(* One conformance case per explored transition.                             *)
EmitCase == ~Emit \/ PrintT("CASE " \o ToJson(<<last', Obs(str')>>))
=============================================================================

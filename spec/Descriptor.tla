----------------------------- MODULE Descriptor -----------------------------
(***************************************************************************)
(* Descriptors (JVMS 4.3) over code-point sequences.                        *)
(* Types: <<"B">> .. <<"Z">>, <<"L", name>>, <<"[", dims, element>>,        *)
(* <<"(", parameters, <<>> or <<result>> >>.                                *)
(***************************************************************************)
EXTENDS Bytes

PrimOf(x) == CASE x = 66 -> <<"B">> [] x = 67 -> <<"C">> [] x = 68 -> <<"D">> [] x = 70 -> <<"F">>
               [] x = 73 -> <<"I">> [] x = 74 -> <<"J">> [] x = 83 -> <<"S">> [] x = 90 -> <<"Z">>
               [] OTHER -> <<>>
CharOf(t) == CASE t[1] = "B" -> 66 [] t[1] = "C" -> 67 [] t[1] = "D" -> 68 [] t[1] = "F" -> 70
               [] t[1] = "I" -> 73 [] t[1] = "J" -> 74 [] t[1] = "S" -> 83 [] t[1] = "Z" -> 90
C(s, i) == IF i <= Len(s) THEN s[i] ELSE -1

(* First position >= i holding x, or 0.                                     *)
Find(s, i, x) == IF \A k \in i..Len(s) : s[k] # x THEN 0
                 ELSE CHOOSE k \in i..Len(s) : s[k] = x /\ \A j \in i..(k - 1) : s[j] # x
(* Class names: what JVMS 4.2.1 forbids inside is left open.                *)
OddName(n) == \/ n = <<>> \/ n[1] = 47 \/ n[Len(n)] = 47
              \/ \E i \in 1..Len(n) : n[i] \in {46, 91} \/ (n[i] = 47 /\ C(n, i + 1) = 47)

RECURSIVE Brackets(_, _)
Brackets(s, i) == IF C(s, i) = 91 THEN 1 + Brackets(s, i + 1) ELSE 0
RECURSIVE FieldAt(_, _), FieldsAt(_, _, _)
FieldAt(s, i) ==
  LET x == C(s, i) IN
  IF x = -1 THEN Err
  ELSE IF PrimOf(x) # <<>> THEN <<i + 1, PrimOf(x)>>
  ELSE IF x = 76 THEN
    LET e == Find(s, i + 1, 59) IN
    IF e = 0 THEN Err
    ELSE LET n == SubSeq(s, i + 1, e - 1) IN IF OddName(n) THEN Open ELSE <<e + 1, <<"L", n>>>>
  ELSE IF x = 91 THEN
    LET d == Brackets(s, i) IN
    IF d > 255 THEN Err
    ELSE LET r == FieldAt(s, i + d) IN IF Bad(r) THEN r ELSE <<r[1], <<"[", d, r[2]>>>>
  ELSE Err
FieldsAt(s, i, acc) ==
  IF C(s, i) = 41 THEN <<i + 1, acc>>
  ELSE LET r == FieldAt(s, i) IN IF Bad(r) THEN r ELSE FieldsAt(s, r[1], Append(acc, r[2]))

(* A whole string as one descriptor: <<1, type>>, Err or Open.               *)
Desc(s) ==
  LET r == IF C(s, 1) = 40 THEN
             LET ps == FieldsAt(s, 2, <<>>) IN
             IF Bad(ps) THEN ps
             ELSE IF C(s, ps[1]) = 86 THEN <<ps[1] + 1, <<"(", ps[2], <<>>>>>>
             ELSE LET q == FieldAt(s, ps[1]) IN IF Bad(q) THEN q ELSE <<q[1], <<"(", ps[2], <<q[2]>>>>>>
           ELSE FieldAt(s, 1) IN
  IF r[1] = -1 THEN Open ELSE IF r[1] = Len(s) + 1 THEN <<1, r[2]>> ELSE Err

IsMethodType(t) == t[1] = "("

Repeat(x, n) == [i \in 1..n |-> x]
RECURSIVE PrintDesc(_), PrintDescs(_, _)
PrintDesc(t) == CASE t[1] = "L" -> <<76>> \o t[2] \o <<59>>
              [] t[1] = "[" -> Repeat(91, t[2]) \o PrintDesc(t[3])
              [] t[1] = "(" -> <<40>> \o PrintDescs(t[2], 1) \o <<41>> \o (IF t[3] = <<>> THEN <<86>> ELSE PrintDesc(t[3][1]))
              [] OTHER -> <<CharOf(t)>>
PrintDescs(ts, i) == IF i > Len(ts) THEN <<>> ELSE PrintDesc(ts[i]) \o PrintDescs(ts, i + 1)
=============================================================================

------------------------------ MODULE Signature ------------------------------
(***************************************************************************)
(* Generic signatures (JVMS 4.7.9.1) over code-point sequences.             *)
(*  reference: <<"T", name>>, <<"[", dims, type>>,                          *)
(*             <<"L", packages, <<name, args>>, suffixes>>                  *)
(*  argument:  <<"*">>, <<"+", ref>>, <<"-", ref>>, <<"=", ref>>            *)
(*  parameter: <<name, <<>> or <<bound>>, interface bounds>>                *)
(*  class:     <<parameters, super, interfaces>>                            *)
(*  method:    <<parameters, arguments, <<>> or <<result>>, throws>>        *)
(***************************************************************************)
EXTENDS Descriptor

MaxNest == 256
(* Identifiers may not contain . ; [ / < > :                                *)
NotId == {46, 59, 91, 47, 60, 62, 58}
RECURSIVE IdEnd(_, _)
IdEnd(s, i) == IF i <= Len(s) /\ s[i] \notin NotId THEN IdEnd(s, i + 1) ELSE i
IdAt(s, i) == LET e == IdEnd(s, i) IN IF e = i THEN Err ELSE <<e, SubSeq(s, i, e - 1)>>

RECURSIVE TypeSig(_, _), RefSig(_, _), ClassSig(_, _), Simple(_, _), Args(_, _, _), Arg(_, _),
          PkgAt(_, _, _), Suffixes(_, _, _)
TypeSig(s, i) == LET x == C(s, i) IN
  IF x = -1 THEN Err ELSE IF PrimOf(x) # <<>> THEN <<i + 1, PrimOf(x)>> ELSE RefSig(s, i)
RefSig(s, i) == LET x == C(s, i) IN
  IF x = 84 THEN
    LET n == IdAt(s, i + 1) IN
    IF Bad(n) THEN n ELSE IF C(s, n[1]) = 59 THEN <<n[1] + 1, <<"T", n[2]>>>> ELSE Err
  ELSE IF x = 91 THEN
    LET d == Brackets(s, i) IN
    IF d > 255 THEN Err
    ELSE LET r == TypeSig(s, i + d) IN IF Bad(r) THEN r ELSE <<r[1], <<"[", d, r[2]>>>>
  ELSE IF x = 76 THEN ClassSig(s, i)
  ELSE Err
(* Package specifiers are identifiers followed by a slash.                  *)
PkgAt(s, i, acc) ==
  LET n == IdAt(s, i) IN
  IF ~Bad(n) /\ C(s, n[1]) = 47 THEN PkgAt(s, n[1] + 1, Append(acc, n[2])) ELSE <<i, acc>>
Arg(s, i) == LET x == C(s, i) IN
  IF x = 42 THEN <<i + 1, <<"*">>>>
  ELSE LET k == CASE x = 43 -> "+" [] x = 45 -> "-" [] OTHER -> "="
           r == RefSig(s, IF k = "=" THEN i ELSE i + 1) IN
       IF Bad(r) THEN r ELSE <<r[1], <<k, r[2]>>>>
Args(s, i, acc) ==
  IF C(s, i) = 62 /\ acc # <<>> THEN <<i + 1, acc>>
  ELSE LET a == Arg(s, i) IN IF Bad(a) THEN a ELSE Args(s, a[1], Append(acc, a[2]))
Simple(s, i) ==
  LET n == IdAt(s, i) IN
  IF Bad(n) THEN n
  ELSE IF C(s, n[1]) # 60 THEN <<n[1], <<n[2], <<>>>>>>
  ELSE LET a == Args(s, n[1] + 1, <<>>) IN IF Bad(a) THEN a ELSE <<a[1], <<n[2], a[2]>>>>
Suffixes(s, i, acc) ==
  IF C(s, i) = 59 THEN <<i + 1, acc>>
  ELSE IF C(s, i) = 46 THEN
    LET n == Simple(s, i + 1) IN IF Bad(n) THEN n ELSE Suffixes(s, n[1], Append(acc, n[2]))
  ELSE Err
ClassSig(s, i) ==
  IF C(s, i) # 76 THEN Err
  ELSE LET p == PkgAt(s, i + 1, <<>>)
           n == Simple(s, p[1]) IN
       IF Bad(n) THEN n
       ELSE LET x == Suffixes(s, n[1], <<>>) IN
            IF Bad(x) THEN x ELSE <<x[1], <<"L", p[2], n[2], x[2]>>>>

(* A type parameter.  "A:" without a bound may be followed by the name of the *)
(* next parameter; a name is followed by a colon, a reference type never is   *)
(* directly: T.. and L.. references end in a semicolon.                       *)
RECURSIVE Bounds(_, _, _), TParams(_, _, _)
Bounds(s, i, acc) ==
  IF C(s, i) # 58 THEN <<i, acc>>
  ELSE LET r == RefSig(s, i + 1) IN IF Bad(r) THEN r ELSE Bounds(s, r[1], Append(acc, r[2]))
TParam(s, i) ==
  LET n == IdAt(s, i) IN
  IF Bad(n) \/ C(s, n[1]) # 58 THEN Err
  ELSE LET j == n[1] + 1
           nextName == C(s, IdEnd(s, j)) = 58 /\ IdEnd(s, j) > j
           hasClass == C(s, j) \in {84, 76, 91} /\ ~nextName
           cb == IF hasClass THEN RefSig(s, j) ELSE <<j, <<>>>> IN
       IF Bad(cb) THEN cb
       ELSE LET ib == Bounds(s, cb[1], <<>>) IN
            IF Bad(ib) THEN ib
            ELSE <<ib[1], <<n[2], IF hasClass THEN <<cb[2]>> ELSE <<>>, ib[2]>>>>
TParams(s, i, acc) ==
  IF C(s, i) = 62 /\ acc # <<>> THEN <<i + 1, acc>>
  ELSE LET t == TParam(s, i) IN IF Bad(t) THEN t ELSE TParams(s, t[1], Append(acc, t[2]))
OptParams(s, i) == IF C(s, i) = 60 THEN TParams(s, i + 1, <<>>) ELSE <<i, <<>>>>

RECURSIVE ClassSigs(_, _, _), TypeSigs(_, _, _), ThrowSigs(_, _, _)
ClassSigs(s, i, acc) ==
  IF i > Len(s) THEN <<i, acc>>
  ELSE LET r == ClassSig(s, i) IN IF Bad(r) THEN r ELSE ClassSigs(s, r[1], Append(acc, r[2]))
TypeSigs(s, i, acc) ==
  IF C(s, i) = 41 THEN <<i + 1, acc>>
  ELSE LET r == TypeSig(s, i) IN IF Bad(r) THEN r ELSE TypeSigs(s, r[1], Append(acc, r[2]))
ThrowSigs(s, i, acc) ==
  IF i > Len(s) THEN <<i, acc>>
  ELSE IF C(s, i) # 94 \/ C(s, i + 1) \notin {84, 76} THEN Err
  ELSE LET r == RefSig(s, i + 1) IN IF Bad(r) THEN r ELSE ThrowSigs(s, r[1], Append(acc, r[2]))

ClassS(s) ==
  LET ps == OptParams(s, 1) IN
  IF Bad(ps) THEN ps
  ELSE LET cs == ClassSigs(s, ps[1], <<>>) IN
       IF Bad(cs) THEN cs
       ELSE IF cs[2] = <<>> THEN Err
       ELSE <<cs[1], <<ps[2], cs[2][1], Tail(cs[2])>>>>
MethodS(s) ==
  LET ps == OptParams(s, 1) IN
  IF Bad(ps) THEN ps
  ELSE IF C(s, ps[1]) # 40 THEN Err
  ELSE LET as == TypeSigs(s, ps[1] + 1, <<>>) IN
       IF Bad(as) THEN as
       ELSE LET ret == IF C(s, as[1]) = 86 THEN <<as[1] + 1, <<>>>>
                       ELSE LET r == TypeSig(s, as[1]) IN IF Bad(r) THEN r ELSE <<r[1], <<r[2]>>>> IN
            IF Bad(ret) THEN ret
            ELSE LET th == ThrowSigs(s, ret[1], <<>>) IN
                 IF Bad(th) THEN th ELSE <<th[1], <<ps[2], as[2], ret[2], th[2]>>>>

(* Deep nesting (of type arguments) is left open: the code has a limit.      *)
Depth(s) ==
  Fold(LAMBDA x, y : LET e == x[1] + (IF y = 60 THEN 1 ELSE IF y = 62 THEN -1 ELSE 0) IN <<e, IF e > x[2] THEN e ELSE x[2]>>,
       <<0, 0>>, s)[2]
Surrogate(s) == \E i \in 1..Len(s) : s[i] >= 55296 /\ s[i] <= 57343
ThrowS(s) == LET r == ThrowSigs(s, 1, <<>>) IN IF Bad(r) THEN r ELSE IF Len(r[2]) = 1 THEN <<r[1], r[2][1]>> ELSE Err
(* kind: "csig", "msig", "fsig", or a part: <<1, value>>, Err or Open.         *)
Sig(kind, s) ==
  IF Surrogate(s) \/ Depth(s) > MaxNest \/ Len(s) > 20000 THEN Open
  ELSE LET r == CASE kind = "csig" -> ClassS(s) [] kind = "msig" -> MethodS(s) [] kind \in {"fsig", "ref"} -> RefSig(s, 1)
                [] kind = "simple" -> Simple(s, 1) [] kind = "ctype" -> ClassSig(s, 1) [] kind = "type" -> TypeSig(s, 1)
                [] kind = "throws" -> ThrowS(s) [] kind = "tparam" -> TParam(s, 1) IN
       IF r[1] = Len(s) + 1 THEN <<1, r[2]>> ELSE IF r[1] = -1 THEN Open ELSE Err

(* Printing.                                                                 *)
RECURSIVE PS(_), PSimple(_), PArgs(_, _), PSuf(_, _), PPkg(_, _), PSeqS(_, _), PBounds(_, _), PParams(_, _), PThrows(_, _)
PArg(a) == CASE a[1] = "*" -> <<42>> [] a[1] = "+" -> <<43>> \o PS(a[2]) [] a[1] = "-" -> <<45>> \o PS(a[2])
             [] OTHER -> PS(a[2])
PArgs(as, i) == IF i > Len(as) THEN <<>> ELSE PArg(as[i]) \o PArgs(as, i + 1)
PSimple(x) == x[1] \o (IF x[2] = <<>> THEN <<>> ELSE <<60>> \o PArgs(x[2], 1) \o <<62>>)
PPkg(p, i) == IF i > Len(p) THEN <<>> ELSE p[i] \o <<47>> \o PPkg(p, i + 1)
PSuf(x, i) == IF i > Len(x) THEN <<>> ELSE <<46>> \o PSimple(x[i]) \o PSuf(x, i + 1)
PS(t) == CASE t[1] = "T" -> <<84>> \o t[2] \o <<59>>
           [] t[1] = "[" -> Repeat(91, t[2]) \o PS(t[3])
           [] t[1] = "L" -> <<76>> \o PPkg(t[2], 1) \o PSimple(t[3]) \o PSuf(t[4], 1) \o <<59>>
           [] OTHER -> <<CharOf(t)>>
PSeqS(ts, i) == IF i > Len(ts) THEN <<>> ELSE PS(ts[i]) \o PSeqS(ts, i + 1)
PBounds(bs, i) == IF i > Len(bs) THEN <<>> ELSE <<58>> \o PS(bs[i]) \o PBounds(bs, i + 1)
PParam(p) == p[1] \o <<58>> \o (IF p[2] = <<>> THEN <<>> ELSE PS(p[2][1])) \o PBounds(p[3], 1)
PParams(ps, i) == IF i > Len(ps) THEN <<>> ELSE PParam(ps[i]) \o PParams(ps, i + 1)
POpt(ps) == IF ps = <<>> THEN <<>> ELSE <<60>> \o PParams(ps, 1) \o <<62>>
PThrows(ts, i) == IF i > Len(ts) THEN <<>> ELSE <<94>> \o PS(ts[i]) \o PThrows(ts, i + 1)
PrintSig(kind, v) ==
  CASE kind = "csig" -> POpt(v[1]) \o PS(v[2]) \o PSeqS(v[3], 1)
    [] kind = "msig" -> POpt(v[1]) \o <<40>> \o PSeqS(v[2], 1) \o <<41>>
                        \o (IF v[3] = <<>> THEN <<86>> ELSE PS(v[3][1])) \o PThrows(v[4], 1)
    [] kind = "simple" -> PSimple(v)
    [] kind = "throws" -> <<94>> \o PS(v)
    [] kind = "tparam" -> PParam(v)
    [] OTHER -> PS(v)
=============================================================================

-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The constant pool (JVMS 4.4): parsing, and what an index denotes.        *)
(* An entry is a tag-first tuple: <<1, code points>>, <<3, bytes>>,          *)
(* <<7, i>>, <<9, i, j>> ...; <<0>> is the unusable second index of a long   *)
(* or double.  A lookup yields <<1, value>>, Err or Open.                    *)
(***************************************************************************)
EXTENDS Signature, Text, FiniteSets

Tags == {1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 19, 20}
Wide2(e) == e[1] \in {5, 6}

Ascii(b, p, n) == \A i \in p..(p + n - 1) : b[i] > 0 /\ b[i] < 128
Utf8At(c, p) ==
  IF ~Has(c, p, 2) THEN Err
  ELSE LET n == W2(c.b, p) IN
       IF ~Has(c, p + 2, n) THEN Err
       ELSE IF Ascii(c.b, p + 2, n) THEN <<p + 2 + n, <<1, SubSeq(c.b, p + 2, p + 1 + n)>>>>
       ELSE LET d == DecM(SubSeq(c.b, p + 2, p + 1 + n)) IN
            IF ~d.ok THEN Err ELSE IF d.lenient THEN Open ELSE <<p + 2 + n, <<1, d.s>>>>
EntryAt(c, p) ==
  IF ~Has(c, p, 1) THEN Err
  ELSE LET t == c.b[p] IN
  CASE t = 1 -> Utf8At(c, p + 1)
    [] t \in {3, 4} -> IF Has(c, p + 1, 4) THEN <<p + 5, <<t, SubSeq(c.b, p + 1, p + 4)>>>> ELSE Err
    [] t \in {5, 6} -> IF Has(c, p + 1, 8) THEN <<p + 9, <<t, SubSeq(c.b, p + 1, p + 8)>>>> ELSE Err
    [] t \in {7, 8, 16, 19, 20} -> IF Has(c, p + 1, 2) THEN <<p + 3, <<t, W2(c.b, p + 1)>>>> ELSE Err
    [] t \in {9, 10, 11, 12, 17, 18} ->
         IF Has(c, p + 1, 4) THEN <<p + 5, <<t, W2(c.b, p + 1), W2(c.b, p + 3)>>>> ELSE Err
    [] t = 15 -> IF Has(c, p + 1, 3) THEN <<p + 4, <<t, c.b[p + 1], W2(c.b, p + 2)>>>> ELSE Err
    [] OTHER -> Err
(* Entries until `count` - 1 indices are filled.                             *)
Entries(c, p, count) ==
  LET Step(s, i) ==
        IF Bad(s) \/ Len(s[2]) >= i THEN s
        ELSE LET e == EntryAt(c, s[1]) IN
             IF Bad(e) THEN e
             ELSE IF Wide2(e[2]) THEN
                    IF Len(s[2]) + 2 > count - 1 THEN Err ELSE <<e[1], s[2] \o <<e[2], <<0>>>>>>
             ELSE <<e[1], Append(s[2], e[2])>>
  IN  Fold(Step, <<p, <<>>>>, [i \in 1..(count - 1) |-> i])
(* The pool at p (its count first).  A count of 0 is left open.              *)
PoolAt(c, p) ==
  IF ~Has(c, p, 2) THEN Err
  ELSE LET n == W2(c.b, p) IN IF n = 0 THEN Open ELSE Entries(c, p + 2, n)

Entry(cp, i) == IF i >= 1 /\ i <= Len(cp) THEN cp[i] ELSE <<0>>

Utf8(cp, i) == LET e == Entry(cp, i) IN IF e[1] = 1 THEN <<1, e[2]>> ELSE Err
(* Class 7, String 8, Module 19, Package 20: a name.                          *)
Named(cp, tag, i) == LET e == Entry(cp, i) IN IF e[1] = tag THEN Utf8(cp, e[2]) ELSE Err
Num(cp, tag, i) == LET e == Entry(cp, i) IN IF e[1] = tag THEN <<1, e[2]>> ELSE Err
DescOf(cp, i) == LET s == Utf8(cp, i) IN IF Bad(s) THEN s ELSE Desc(s[2])
NameAndType(cp, i) ==
  LET e == Entry(cp, i) IN
  IF e[1] # 12 THEN Err
  ELSE LET n == Utf8(cp, e[2])
           t == DescOf(cp, e[3]) IN
       IF Bad(n) THEN n ELSE IF Bad(t) THEN t ELSE <<1, <<n[2], t[2]>>>>
(* <<"m", owner, name, type, is-interface>>.                                  *)
Member(cp, i) ==
  LET e == Entry(cp, i) IN
  IF e[1] \notin {9, 10, 11} THEN Err
  ELSE LET o == Named(cp, 7, e[2])
           nt == NameAndType(cp, e[3]) IN
       IF o[1] = 0 \/ nt[1] = 0 THEN Err
       ELSE IF o[1] < 0 \/ nt[1] < 0 THEN Open
       ELSE IF (e[1] = 9) = IsMethodType(nt[2][2]) THEN Open
       ELSE <<1, <<"m", o[2], nt[2][1], nt[2][2], IF e[1] = 11 THEN 1 ELSE 0>>>>
HandleKinds(tag) == CASE tag = 9 -> {1, 2, 3, 4} [] tag = 10 -> {5, 6, 7, 8} [] tag = 11 -> {6, 7, 9}
Handle(cp, i) ==
  LET e == Entry(cp, i) IN
  IF e[1] # 15 \/ e[2] \notin 1..9 THEN Err
  ELSE LET m == Member(cp, e[3]) IN
       IF Bad(m) THEN m
       ELSE IF e[2] \notin HandleKinds(cp[e[3]][1]) THEN Open
       ELSE <<1, <<"h", e[2], m[2]>>>>
(* A static constant (not a dynamic one).  Member references are no constants *)
(* of the JVM; whether they are accepted as such is left open.                *)
Const(cp, i) ==
  LET e == Entry(cp, i) IN
  CASE e[1] = 3 -> <<1, <<"int", e[2]>>>>
    [] e[1] = 4 -> <<1, <<"float", e[2]>>>>
    [] e[1] = 5 -> <<1, <<"long", e[2]>>>>
    [] e[1] = 6 -> <<1, <<"double", e[2]>>>>
    [] e[1] \in {7, 8} -> LET s == Utf8(cp, e[2]) IN
                          IF Bad(s) THEN s ELSE <<1, <<IF e[1] = 7 THEN "class" ELSE "string", s[2]>>>>
    [] e[1] = 16 -> LET t == DescOf(cp, e[2]) IN
                    IF Bad(t) THEN t ELSE IF IsMethodType(t[2]) THEN <<1, <<"mtype", t[2]>>>> ELSE Open
    [] e[1] = 15 -> LET h == Handle(cp, i) IN IF Bad(h) THEN h ELSE <<1, <<"handle", h[2][2], h[2][3]>>>>
    [] e[1] \in {9, 10, 11} -> LET m == Member(cp, i) IN IF m[1] = 0 THEN Err ELSE Open
    [] OTHER -> Err

(* Dynamic entries.  bt is the raw bootstrap table: a sequence of              *)
(* <<handle index, argument indices>>.  A method that needs itself denotes     *)
(* nothing; very deep nesting is left open.                                    *)
RECURSIVE Dyn(_, _, _, _, _), Boot(_, _, _, _), BootArgs(_, _, _, _, _, _), ConstOrDyn(_, _, _, _)
Dyn(cp, bt, tag, i, path) ==
  LET e == Entry(cp, i) IN
  IF e[1] # tag THEN Err
  ELSE LET nt == NameAndType(cp, e[3]) IN
       IF Bad(nt) THEN nt
       ELSE LET b == Boot(cp, bt, e[2], path) IN
            IF Bad(b) THEN b
            ELSE IF IsMethodType(nt[2][2]) # (tag = 18) THEN Open
            ELSE <<1, <<"dyn", b[2], nt[2][1], nt[2][2]>>>>
ConstOrDyn(cp, bt, i, path) == IF Entry(cp, i)[1] = 17 THEN Dyn(cp, bt, 17, i, path) ELSE Const(cp, i)
BootArgs(cp, bt, as, k, path, acc) ==
  IF k > Len(as) THEN <<1, acc>>
  ELSE LET a == ConstOrDyn(cp, bt, as[k], path) IN
       IF Bad(a) THEN a ELSE BootArgs(cp, bt, as, k + 1, path, Append(acc, a[2]))
Boot(cp, bt, k, path) ==
  IF k + 1 > Len(bt) \/ k \in path THEN Err
  ELSE LET h == Handle(cp, bt[k + 1][1])
           as == BootArgs(cp, bt, bt[k + 1][2], 1, path \cup {k}, <<>>) IN
       IF h[1] = 0 \/ as[1] = 0 THEN Err
       ELSE IF h[1] < 0 \/ as[1] < 0 \/ Cardinality(path) > 100 THEN Open
       ELSE <<1, <<h[2], as[2]>>>>
=============================================================================

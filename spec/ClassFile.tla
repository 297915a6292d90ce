------------------------------ MODULE ClassFile ------------------------------
(***************************************************************************)
(* The class-file format (JVMS 4): which class a byte sequence denotes.     *)
(*                                                                          *)
(* The format is given as data: FormatOf tables of small format terms, and   *)
(* one interpreter Parse(f, c, p).  c holds                                   *)
(*   b, end      the bytes and the last readable position                     *)
(*   cp, bt      constant pool and raw bootstrap table                         *)
(*   segs, clen  instruction boundaries and length of the enclosing code       *)
(*   catches     its exception table                                           *)
(*   guide       the instructions the writer was given (or <<>>)               *)
(*   depth       nesting of annotation values                                  *)
(***************************************************************************)
EXTENDS Insn, Names, Bitwise

MaxDepth == 250          \* deeper annotation nesting is left open

---------------------------------------------------------------------------
(* Format tables.                                                           *)
u1 == <<"u1">>
u2 == <<"u2">>
utf8 == <<"utf8">>
optutf8 == <<"opt", utf8>>
cls == <<"name", 7>>
optcls == <<"opt", cls>>
pkg == <<"name", 20>>
mod == <<"name", 19>>
type == <<"type">>
v8(f) == <<"v8", f>>
v16(f) == <<"v16", f>>
Tup(fs) == <<"seq", fs>>
annotation == <<"annotation">>
path == v8(<<"tag", << <<0, "array", Tup(<<u1>>)>>, <<1, "nested", Tup(<<u1>>)>>,
                       <<2, "bound", Tup(<<u1>>)>>, <<3, "arg", Tup(<<u1>>)>> >>>>)
TypeAnn(targets) == v16(Tup(<< <<"tag", targets>>, path, annotation >>))
ClassTargets == << <<0, "tparam", Tup(<<u1>>)>>, <<16, "super", Tup(<<u2>>)>>, <<17, "tbound", Tup(<<u1, u1>>)>> >>
MethodTargets == << <<1, "tparam", Tup(<<u1>>)>>, <<18, "tbound", Tup(<<u1, u1>>)>>, <<20, "return", Tup(<<>>)>>,
                    <<21, "receiver", Tup(<<>>)>>, <<22, "formal", Tup(<<u1>>)>>, <<23, "throws", Tup(<<u2>>)>> >>
FieldTargets == << <<19, "field", Tup(<<>>)>> >>
lab == <<"lab">>
CodeTargets == << <<64, "var", Tup(<<v16(<<"range">>)>>)>>, <<65, "resource", Tup(<<v16(<<"range">>)>>)>>,
                  <<66, "catch", <<"catch">>>>,
                  <<67, "instanceof", Tup(<<lab>>)>>, <<68, "new", Tup(<<lab>>)>>, <<69, "newref", Tup(<<lab>>)>>,
                  <<70, "methodref", Tup(<<lab>>)>>,
                  <<71, "cast", Tup(<<lab, u1>>)>>, <<72, "gnew", Tup(<<lab, u1>>)>>, <<73, "gmethod", Tup(<<lab, u1>>)>>,
                  <<74, "gnewref", Tup(<<lab, u1>>)>>, <<75, "gmethodref", Tup(<<lab, u1>>)>> >>
inner == Tup(<<cls, optcls, optutf8, <<"flags", 30239>>>>)                 \* 0x761F
require == Tup(<<mod, <<"flags", 36960>>, optutf8>>)                        \* 0x9060
exop == Tup(<<pkg, <<"flags", 36864>>, v16(mod)>>)                          \* 0x9000
module == Tup(<<mod, <<"flags", 36896>>, optutf8, v16(require), v16(exop), v16(exop), v16(cls),
                v16(Tup(<<cls, v16(cls)>>))>>)                              \* 0x9020
Named4 == << <<"RuntimeVisibleAnnotations", v16(annotation)>>, <<"RuntimeInvisibleAnnotations", v16(annotation)>>,
             <<"Deprecated", Tup(<<>>)>>, <<"Synthetic", Tup(<<>>)>> >>
TypeAnns(t) == << <<"RuntimeVisibleTypeAnnotations", TypeAnn(t)>>, <<"RuntimeInvisibleTypeAnnotations", TypeAnn(t)>> >>
Sig1(k) == << <<"Signature", <<"sig", k>>>> >>
(* <<code points of the name, name, format>> per position.                   *)
Tab(t) == TLCEval([i \in 1..Len(t) |-> <<NameCps(t[i][1]), t[i][1], t[i][2]>>])
ClassTab == Tab(Named4 \o TypeAnns(ClassTargets) \o Sig1("csig") \o
  << <<"SourceFile", utf8>>, <<"InnerClasses", v16(inner)>>,
     <<"EnclosingMethod", Tup(<<cls, <<"opt", <<"nat">>>>>>)>>,
     <<"SourceDebugExtension", <<"rest">>>>,
     <<"BootstrapMethods", <<"bsms">>>>,
     <<"Module", module>>, <<"ModulePackages", v16(pkg)>>, <<"ModuleMainClass", cls>>,
     <<"NestHost", cls>>, <<"NestMembers", v16(cls)>> >>)
FieldTab == Tab(Named4 \o TypeAnns(FieldTargets) \o Sig1("fsig") \o << <<"ConstantValue", <<"const">>>> >>)
MethodTab == Tab(Named4 \o TypeAnns(MethodTargets) \o Sig1("msig") \o
  << <<"Code", <<"code">>>>,
     <<"RuntimeVisibleParameterAnnotations", v8(v16(annotation))>>,
     <<"RuntimeInvisibleParameterAnnotations", v8(v16(annotation))>>,
     <<"Exceptions", v16(cls)>>, <<"AnnotationDefault", <<"elem">>>>,
     <<"MethodParameters", v8(Tup(<<optutf8, <<"flags", 36880>>>>))>> >>)    \* 0x9010
vtype == <<"tag", << <<0, "top", Tup(<<>>)>>, <<1, "int", Tup(<<>>)>>, <<2, "float", Tup(<<>>)>>, <<3, "double", Tup(<<>>)>>,
                     <<4, "long", Tup(<<>>)>>, <<5, "null", Tup(<<>>)>>, <<6, "this", Tup(<<>>)>>,
                     <<7, "object", Tup(<<cls>>)>>, <<8, "uninit", Tup(<<lab>>)>> >>>>
CodeTab == Tab(TypeAnns(CodeTargets) \o
  << <<"LineNumberTable", v16(Tup(<<lab, u2>>))>>,
     <<"LocalVariableTable", v16(Tup(<< <<"span">>, utf8, type, u2 >>))>>,
     <<"LocalVariableTypeTable", v16(Tup(<< <<"span">>, utf8, <<"sig", "fsig">>, u2 >>))>>,
     <<"StackMapTable", v16(<<"frame">>)>> >>)
Masks == [class |-> 63025, field |-> 20703, method |-> 7679]                \* 0xF631 0x50DF 0x1DFF

---------------------------------------------------------------------------
(* Code geometry.  A segment is <<pc, index, op>>; a run of k nops is one     *)
(* segment with op <<"nops", k>>.                                             *)
RECURSIVE RunDown(_, _, _, _), RunUp(_, _, _, _)
AllZero(b, p, k) == \A i \in p..(p + k - 1) : b[i] = 0
RunDown(b, p, e, k) == IF k = 0 THEN p
  ELSE IF p + k - 1 <= e /\ AllZero(b, p, k) THEN RunDown(b, p + k, e, k \div 2) ELSE RunDown(b, p, e, k \div 2)
RunUp(b, p, e, k) == IF p + k - 1 <= e /\ AllZero(b, p, k) THEN RunUp(b, p + k, e, 2 * k) ELSE RunDown(b, p, e, k)
(* First position in p..e that is no zero byte (or e + 1).                    *)
RunEnd(b, p, e) == RunUp(b, p, e, 1)

RECURSIVE SegSearch(_, _, _, _)
SegSearch(segs, pc, lo, hi) ==     \* the last segment at or before pc
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN
       IF segs[m][1] <= pc THEN SegSearch(segs, pc, m, hi) ELSE SegSearch(segs, pc, lo, m - 1)
SegsLen(segs, clen) == LET s == segs[Len(segs)] IN IF s[3][1] = "nops" THEN s[2] + s[3][2] ELSE s[2] + 1
(* The index of the instruction at pc: <<1, index>>; the end of the code is    *)
(* the index after the last one; between instructions is an error.             *)
IdxOf(segs, clen, pc) ==
  IF pc = clen THEN <<1, SegsLen(segs, clen)>>
  ELSE IF pc > clen \/ pc < 0 THEN Err
  ELSE LET s == segs[SegSearch(segs, pc, 1, Len(segs))] IN
       IF s[1] = pc THEN <<1, s[2]>>
       ELSE IF s[3][1] = "nops" /\ pc < s[1] + s[3][2] THEN <<1, s[2] + (pc - s[1])>>
       ELSE Err
(* As the position of an instruction: the end of the code is left open.       *)
InsnAt(c, pc) == IF pc = c.clen THEN Open ELSE IdxOf(c.segs, c.clen, pc)

IsIf(op) == op[1] = "if" /\ op[2] # "always"
IsGoto(op) == op[1] = "if" /\ op[2] = "always"
(* Decodes the code from byte p on.  When the writer was asked for a jump on   *)
(* the opposite condition, a jump over a following goto is that one jump.      *)
ScanStep(c, base, p, idx, acc) ==
  LET pc == p - base IN
  IF c.b[p] = 0 THEN
    LET e == RunEnd(c.b, p, c.end) IN
    <<e, Append(acc, <<pc, idx, <<"nops", e - p>>>>), idx + (e - p)>>
  ELSE
    LET r == DecodeInsn(c, p, pc) IN
    IF Bad(r) THEN r
    ELSE
      LET n == Len(acc) + 1
          want == IF n <= Len(c.guide) THEN c.guide[n] ELSE <<"">>
          skip == IF /\ IsIf(r[2]) /\ IsIf(want) /\ IsNeg(r[2][2], want[2])
                     /\ r[1] <= c.end /\ c.b[r[1]] \in {167, 200}
                  THEN DecodeInsn(c, r[1], r[1] - base) ELSE Err IN
      IF ~Bad(skip) /\ IsGoto(skip[2]) /\ r[2][3] = skip[1] - base
      THEN <<skip[1], Append(acc, <<pc, idx, <<"if", want[2], skip[2][3]>>>>), idx + 1>>
      ELSE <<r[1], Append(acc, <<pc, idx, r[2]>>), idx + 1>>
RECURSIVE Scan(_, _, _)
Scan(c, base, s) ==      \* s: <<position, segments, index>>
  IF Bad(s) \/ s[1] > c.end THEN s
  ELSE Scan(c, base, TLCEval(Fold(LAMBDA x, i : IF Bad(x) \/ x[1] > c.end THEN x ELSE ScanStep(c, base, x[1], x[3], x[2]),
                                  s, Sixty)))

(* Replaces byte offsets in an operation by instruction indices.              *)
Retarget(segs, clen, op) ==
  LET T(t) == IF t = clen THEN Open ELSE IdxOf(segs, clen, t)
      Worst(S) == IF \E r \in S : r[1] = 0 THEN Err ELSE Open IN
  CASE op[1] = "if" -> LET r == T(op[3]) IN IF Bad(r) THEN r ELSE <<1, <<"if", op[2], r[2]>>>>
    [] op[1] = "jsr" -> LET r == T(op[2]) IN IF Bad(r) THEN r ELSE <<1, <<"jsr", r[2]>>>>
    [] op[1] = "tableswitch" ->
         LET d == T(op[2])
             ts == [i \in 1..Len(op[4]) |-> T(op[4][i])] IN
         IF Bad(d) \/ \E i \in 1..Len(ts) : Bad(ts[i]) THEN Worst({d} \cup Range(ts))
         ELSE <<1, <<"tableswitch", d[2], op[3], [i \in 1..Len(ts) |-> ts[i][2]]>>>>
    [] op[1] = "lookupswitch" ->
         LET d == T(op[2])
             ts == [i \in 1..Len(op[3]) |-> T(op[3][i][2])] IN
         IF Bad(d) \/ \E i \in 1..Len(ts) : Bad(ts[i]) THEN Worst({d} \cup Range(ts))
         ELSE <<1, <<"lookupswitch", d[2], [i \in 1..Len(ts) |-> <<op[3][i][1], ts[i][2]>>]>>>>
    [] OTHER -> <<1, op>>

---------------------------------------------------------------------------
(* Local variables: one entry per (start, end, slot, name), with a descriptor  *)
(* from one table and a signature from the other.                              *)
VarKey(x) == <<x[1], x[2], x[5], x[3]>>
VarLess(x, y) == LET a == VarKey(x)
                     b == VarKey(y) IN
  IF a[1] # b[1] THEN a[1] < b[1]
  ELSE IF a[2] # b[2] THEN a[2] < b[2]
  ELSE IF a[3] # b[3] THEN a[3] < b[3]
  ELSE Less(a[4], b[4])
(* ds, ts: sequences of <<start, end, name, value, slot>>.                     *)
MergeVars(ds, ts) ==
  LET KD == {VarKey(ds[i]) : i \in 1..Len(ds)}
      KT == {VarKey(ts[i]) : i \in 1..Len(ts)} IN
  IF Cardinality(KD) # Len(ds) \/ Cardinality(KT) # Len(ts) THEN Open
  ELSE LET one(k, s) == IF \E i \in 1..Len(s) : VarKey(s[i]) = k
                        THEN <<s[CHOOSE i \in 1..Len(s) : VarKey(s[i]) = k][4]>> ELSE <<>>
           fromD == [i \in 1..Len(ds) |-> <<ds[i][1], ds[i][2], ds[i][3], <<ds[i][4]>>, ds[i][5], one(VarKey(ds[i]), ts)>>]
           rest == SelectSeq(ts, LAMBDA x : VarKey(x) \notin KD)
           fromT == [i \in 1..Len(rest) |-> <<rest[i][1], rest[i][2], rest[i][3], <<>>, rest[i][5], <<rest[i][4]>>>>] IN
       <<1, SortSeq(fromD \o fromT, VarLess)>>
(* Lines sorted by instruction, those of one instruction in table order.       *)
SortLines(ls) ==
  LET tagged == [i \in 1..Len(ls) |-> <<ls[i][1], i, ls[i][2]>>]
      s == SortSeq(tagged, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])) IN
  [i \in 1..Len(s) |-> <<s[i][1], s[i][3]>>]

(* Attributes sorted by kind (unknown ones last), keeping the order within.    *)
RECURSIVE ByKind(_, _)
ByKind(as, k) == IF k > Len(NameTable) THEN SelectSeq(as, LAMBDA a : a[1] = "Raw")
                 ELSE SelectSeq(as, LAMBDA a : a[1] = NameTable[k][1]) \o ByKind(as, k + 1)
NormAttrs(as) == IF Len(as) <= 1 THEN as ELSE ByKind(as, 1)
OfKind(as, k) == LET s == SelectSeq(as, LAMBDA a : a[1] = k) IN [i \in 1..Len(s) |-> s[i][2]]
NotKinds(as, ks) == SelectSeq(as, LAMBDA a : a[1] \notin ks)

---------------------------------------------------------------------------
(* Raw bootstrap table: <<handle index, argument indices>> per method.         *)
RawBsm(c, p) ==
  IF ~Has(c, p, 4) THEN Err
  ELSE LET k == W2(c.b, p + 2) IN
       IF ~Has(c, p + 4, 2 * k) THEN Err
       ELSE <<p + 4 + 2 * k, <<W2(c.b, p), [i \in 1..k |-> W2(c.b, p + 2 + 2 * i)]>>>>
RawBsms(c, p, n) == Times(LAMBDA q, i : RawBsm(c, q), p, n)

---------------------------------------------------------------------------
(* The interpreter.                                                           *)
Mv(p, r) == IF Bad(r) THEN r ELSE <<p, r[2]>>
(* Open only where the rest of the bytes can still be followed is not tracked: *)
(* an open part makes the whole open.                                          *)
RECURSIVE Parse(_, _, _), ParseSeq(_, _, _), Many(_, _, _, _), Pairs(_, _, _), Elem(_, _),
          Attrs(_, _, _, _), AttrAt(_, _, _), CodeAt(_, _), FrameAt(_, _)

ParseSeq(fs, c, p) == Times(LAMBDA q, i : Parse(fs[i], c, q), p, Len(fs))
Many(f, c, p, n) == Times(LAMBDA q, i : Parse(f, c, q), p, n)

FieldType(cp, i) == LET t == DescOf(cp, i) IN IF Bad(t) THEN t ELSE IF IsMethodType(t[2]) THEN Open ELSE t

(* Annotations: <<type, pairs sorted by name>>; repeated names are left open.  *)
AnnAt(c, p) ==
  IF ~Has(c, p, 4) THEN Err
  ELSE LET t == FieldType(c.cp, W2(c.b, p))
           ps == Pairs(c, p + 4, W2(c.b, p + 2)) IN
       IF Bad(t) THEN t
       ELSE IF Bad(ps) THEN ps
       ELSE IF Cardinality({ps[2][i][1] : i \in 1..Len(ps[2])}) # Len(ps[2]) THEN Open
       ELSE <<ps[1], <<t[2], SortSeq(ps[2], LAMBDA x, y : Less(x[1], y[1]))>>>>
Pairs(c, p, n) ==
  LET Pair(q, i) ==
        IF ~Has(c, q, 2) THEN Err
        ELSE LET k == Utf8(c.cp, W2(c.b, q)) IN
             IF Bad(k) THEN k
             ELSE LET v == Elem(c, q + 2) IN IF Bad(v) THEN v ELSE <<v[1], <<k[2], v[2]>>>>
  IN  Times(Pair, p, n)
IntIn(cp, i, lo, hi, tag) ==
  LET n == Num(cp, 3, i) IN
  IF Bad(n) THEN n
  ELSE LET v == Int4(n[2]) IN IF v >= lo /\ v <= hi THEN <<1, <<tag, v>>>> ELSE Err
Elem(c, p) ==
  IF ~Has(c, p, 1) THEN Err
  ELSE IF c.depth > MaxDepth THEN Open
  ELSE LET t == c.b[p]
           i == IF Has(c, p + 1, 2) THEN W2(c.b, p + 1) ELSE 0
           deep == [c EXCEPT !.depth = @ + 1] IN
  CASE t \in {66, 67, 68, 70, 73, 74, 83, 90, 115, 101, 99, 64, 91} /\ ~Has(c, p + 1, 2) -> Err
    [] t = 66 -> Mv(p + 3, IntIn(c.cp, i, -128, 127, "B"))
    [] t = 67 -> Mv(p + 3, IntIn(c.cp, i, 0, 65535, "C"))
    [] t = 83 -> Mv(p + 3, IntIn(c.cp, i, -32768, 32767, "S"))
    [] t = 90 -> Mv(p + 3, IntIn(c.cp, i, 0, 1, "Z"))
    [] t = 73 -> LET n == Num(c.cp, 3, i) IN IF Bad(n) THEN n ELSE <<p + 3, <<"I", n[2]>>>>
    [] t = 70 -> LET n == Num(c.cp, 4, i) IN IF Bad(n) THEN n ELSE <<p + 3, <<"F", n[2]>>>>
    [] t = 74 -> LET n == Num(c.cp, 5, i) IN IF Bad(n) THEN n ELSE <<p + 3, <<"J", n[2]>>>>
    [] t = 68 -> LET n == Num(c.cp, 6, i) IN IF Bad(n) THEN n ELSE <<p + 3, <<"D", n[2]>>>>
    [] t = 115 -> LET n == Utf8(c.cp, i) IN IF Bad(n) THEN n ELSE <<p + 3, <<"s", n[2]>>>>
    [] t = 101 -> IF ~Has(c, p + 3, 2) THEN Err
                  ELSE LET ty == FieldType(c.cp, i)
                           n == Utf8(c.cp, W2(c.b, p + 3)) IN
                       IF ty[1] = 0 \/ Bad(n) THEN Err ELSE IF Bad(ty) THEN ty ELSE <<p + 5, <<"e", ty[2], n[2]>>>>
    [] t = 99 -> LET s == Utf8(c.cp, i) IN
                 IF Bad(s) THEN s
                 ELSE IF s[2] = <<86>> THEN <<p + 3, <<"c", <<>>>>>>
                 ELSE LET ty == FieldType(c.cp, i) IN IF Bad(ty) THEN ty ELSE <<p + 3, <<"c", <<ty[2]>>>>>>
    [] t = 64 -> LET a == AnnAt(deep, p + 1) IN IF Bad(a) THEN a ELSE <<a[1], <<"@", a[2]>>>>
    [] t = 91 -> LET a == Many(<<"elem">>, deep, p + 3, i) IN IF Bad(a) THEN a ELSE <<a[1], <<"[", a[2]>>>>
    [] OTHER -> Err

(* An attribute: <<kind, payload>>, unknown ones <<"Raw", <<name, bytes>>>>.    *)
AttrAt(tab, c, p) ==
  IF ~Has(c, p, 6) THEN Err
  ELSE LET name == Utf8(c.cp, W2(c.b, p))
           n == Len4(c.b, p + 2) IN
       IF Bad(name) \/ n < 0 \/ ~Has(c, p + 6, n) THEN Err
       ELSE LET S == {i \in 1..Len(tab) : tab[i][1] = name[2]} IN
            IF S = {} THEN <<p + 6 + n, <<"Raw", <<name[2], SubSeq(c.b, p + 6, p + 5 + n)>>>>>>
            ELSE LET e == tab[CHOOSE i \in S : TRUE]
                     r == Parse(e[3], [c EXCEPT !.end = p + 5 + n], p + 6) IN
                 IF Bad(r) THEN r
                 ELSE IF r[1] # p + 6 + n THEN Err      \* the length disagrees with the content
                 ELSE <<r[1], <<e[2], r[2]>>>>
Attrs(tab, c, p, n) ==
  LET r == Times(LAMBDA q, i : AttrAt(tab, c, q), p, n) IN IF Bad(r) THEN r ELSE <<r[1], NormAttrs(r[2])>>
AttrList(tab, c, p) == IF ~Has(c, p, 2) THEN Err ELSE Attrs(tab, c, p + 2, W2(c.b, p))

FrameAt(c, p) ==
  IF ~Has(c, p, 1) THEN Err
  ELSE LET t == c.b[p]
           off == IF Has(c, p + 1, 2) THEN W2(c.b, p + 1) ELSE 0
           q == p + 3 IN
  CASE t <= 63 -> <<p + 1, <<"same", t>>>>
    [] t \in 64..127 -> LET v == Parse(vtype, c, p + 1) IN IF Bad(v) THEN v ELSE <<v[1], <<"same1", t - 64, v[2]>>>>
    [] t \in 128..246 -> Err
    [] t > 246 /\ ~Has(c, p + 1, 2) -> Err
    [] t = 247 -> LET v == Parse(vtype, c, q) IN IF Bad(v) THEN v ELSE <<v[1], <<"same1", off, v[2]>>>>
    [] t \in 248..250 -> <<q, <<"chop", off, 251 - t>>>>
    [] t = 251 -> <<q, <<"same", off>>>>
    [] t \in 252..254 -> LET v == Many(vtype, c, q, t - 251) IN IF Bad(v) THEN v ELSE <<v[1], <<"append", off, v[2]>>>>
    [] OTHER -> LET v == ParseSeq(<<v16(vtype), v16(vtype)>>, c, q) IN
                IF Bad(v) THEN v ELSE <<v[1], <<"full", off, v[2][1], v[2][2]>>>>

Catch(c, p) ==
  IF ~Has(c, p, 8) THEN Err
  ELSE LET s == InsnAt(c, W2(c.b, p))
           e == IdxOf(c.segs, c.clen, W2(c.b, p + 2))
           h == InsnAt(c, W2(c.b, p + 4))
           t == IF W2(c.b, p + 6) = 0 THEN <<1, <<>>>>
                ELSE LET x == Named(c.cp, 7, W2(c.b, p + 6)) IN IF Bad(x) THEN x ELSE <<1, <<x[2]>>>> IN
       IF s[1] = 0 \/ e[1] = 0 \/ h[1] = 0 \/ t[1] = 0 THEN Err
       ELSE IF Bad(s) \/ Bad(e) \/ Bad(h) \/ Bad(t) THEN Open
       ELSE <<p + 8, <<s[2], e[2], h[2], t[2]>>>>
Catches(c, p, n) == Times(LAMBDA q, i : Catch(c, q), p, n)

CodeAt(c0, p) ==
  IF ~Has(c0, p, 8) THEN Err
  ELSE LET clen == Len4(c0.b, p + 4)
           base == p + 8 IN
  IF clen < 0 \/ clen > 65535 \/ ~Has(c0, base, clen + 4) THEN Err
  ELSE IF clen = 0 THEN Open
  ELSE LET cc == [c0 EXCEPT !.end = base + clen - 1, !.clen = clen]
           sc == Scan(cc, base, <<base, <<>>, 0>>) IN
  IF Bad(sc) THEN sc
  ELSE LET segs == sc[2]
           ops == TLCEval([i \in 1..Len(segs) |-> Retarget(segs, clen, segs[i][3])])
           c == [c0 EXCEPT !.segs = segs, !.clen = clen]
           cat == Catches(c, base + clen + 2, W2(c.b, base + clen)) IN
  IF \E i \in 1..Len(ops) : ops[i][1] = 0 THEN Err
  ELSE IF Bad(cat) THEN cat
  ELSE LET at == AttrList(CodeTab, [c EXCEPT !.catches = cat[2]], cat[1]) IN
  IF Bad(at) THEN at
  ELSE IF \E i \in 1..Len(ops) : Bad(ops[i]) THEN Open
  ELSE LET lines == Concat(OfKind(at[2], "LineNumberTable"))
           vars(k) == LET t == Concat(OfKind(at[2], k)) IN
                      [i \in 1..Len(t) |-> <<t[i][1][1], t[i][1][2], t[i][2], t[i][3], t[i][4]>>]
           mv == MergeVars(vars("LocalVariableTable"), vars("LocalVariableTypeTable")) IN
  IF Bad(mv) THEN mv
  ELSE <<at[1], [stack |-> W2(c.b, p), locals |-> W2(c.b, p + 2), n |-> SegsLen(segs, clen),
                 ops |-> [i \in 1..Len(ops) |-> ops[i][2]], catches |-> cat[2], lines |-> SortLines(lines),
                 vars |-> mv[2],
                 attrs |-> NotKinds(at[2], {"LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "StackMapTable"})]>>

Parse(f, c, p) ==
  CASE f[1] = "u1" -> U1(c, p)
    [] f[1] = "u2" -> U2(c, p)
    [] f[1] = "flags" -> IF Has(c, p, 2) THEN <<p + 2, W2(c.b, p) & f[2]>> ELSE Err
    [] f[1] = "opt" -> IF ~Has(c, p, 2) THEN Err
                       ELSE IF W2(c.b, p) = 0 THEN <<p + 2, <<>>>>
                       ELSE LET r == Parse(f[2], c, p) IN IF Bad(r) THEN r ELSE <<r[1], <<r[2]>>>>
    [] f[1] = "seq" -> ParseSeq(f[2], c, p)
    [] f[1] = "v8" -> IF Has(c, p, 1) THEN Many(f[2], c, p + 1, c.b[p]) ELSE Err
    [] f[1] = "v16" -> IF Has(c, p, 2) THEN Many(f[2], c, p + 2, W2(c.b, p)) ELSE Err
    [] f[1] = "tag" -> IF ~Has(c, p, 1) THEN Err
                       ELSE LET S == {i \in 1..Len(f[2]) : f[2][i][1] = c.b[p]} IN
                            IF S = {} THEN Err
                            ELSE LET e == f[2][CHOOSE i \in S : TRUE]
                                     r == Parse(e[3], c, p + 1) IN
                                 IF Bad(r) THEN r ELSE <<r[1], <<e[2]>> \o r[2]>>
    [] f[1] = "annotation" -> AnnAt(c, p)
    [] f[1] = "elem" -> Elem(c, p)
    [] f[1] = "rest" -> LET d == DecM(SubSeq(c.b, p, c.end)) IN
                        IF ~d.ok THEN Err ELSE IF d.lenient THEN Open ELSE <<c.end + 1, d.s>>
    [] f[1] = "code" -> CodeAt(c, p)
    [] f[1] = "frame" -> FrameAt(c, p)
    [] f[1] = "bsms" -> IF ~Has(c, p, 2) THEN Err
                        ELSE LET t == RawBsms(c, p + 2, W2(c.b, p))
                                 vs == [k \in 1..Len(t[2]) |-> Boot(c.cp, t[2], k - 1, {})] IN
                             IF Bad(t) THEN t
                             ELSE IF \E k \in 1..Len(vs) : vs[k][1] = 0 THEN Err
                             ELSE IF \E k \in 1..Len(vs) : Bad(vs[k]) THEN Open
                             ELSE <<t[1], [k \in 1..Len(vs) |-> vs[k][2]]>>
    [] ~Has(c, p, 2) -> Err
    [] f[1] = "utf8" -> Mv(p + 2, Utf8(c.cp, W2(c.b, p)))
    [] f[1] = "name" -> Mv(p + 2, Named(c.cp, f[2], W2(c.b, p)))
    [] f[1] = "type" -> Mv(p + 2, FieldType(c.cp, W2(c.b, p)))
    [] f[1] = "const" -> Mv(p + 2, Const(c.cp, W2(c.b, p)))
    [] f[1] = "nat" -> Mv(p + 2, LET r == NameAndType(c.cp, W2(c.b, p)) IN
                                 IF Bad(r) THEN r ELSE IF IsMethodType(r[2][2]) THEN r ELSE Open)
    [] f[1] = "sig" -> Mv(p + 2, LET s == Utf8(c.cp, W2(c.b, p)) IN IF Bad(s) THEN s ELSE Sig(f[2], s[2]))
    [] f[1] = "lab" -> Mv(p + 2, InsnAt(c, W2(c.b, p)))
    [] f[1] = "catch" -> LET i == W2(c.b, p) IN IF i < Len(c.catches) THEN <<p + 2, <<c.catches[i + 1]>>>> ELSE Err
    [] f[1] \in {"range", "span"} ->       \* start and length, and the slot for a range
         LET k == IF f[1] = "range" THEN 6 ELSE 4 IN
         IF ~Has(c, p, k) THEN Err
         ELSE LET pc == W2(c.b, p)
                  s == IdxOf(c.segs, c.clen, pc)
                  e == IdxOf(c.segs, c.clen, pc + W2(c.b, p + 2)) IN
              IF Bad(s) \/ Bad(e) THEN Err
              ELSE <<p + k, IF k = 4 THEN <<s[2], e[2]>> ELSE <<s[2], e[2], W2(c.b, p + 4)>>>>

---------------------------------------------------------------------------
(* Class framing, to find the bootstrap table before anything refers to it.    *)
SkipAttr(c, p) == IF p = 0 \/ ~Has(c, p, 6) THEN 0
                  ELSE LET k == Len4(c.b, p + 2) IN IF k < 0 \/ ~Has(c, p + 6, k) THEN 0 ELSE p + 6 + k
SkipAttrs(c, p, n) == Fold(LAMBDA q, i : SkipAttr(c, q), p, Numbers(n))
SkipMember(c, p) == IF p = 0 \/ ~Has(c, p, 8) THEN 0 ELSE SkipAttrs(c, p + 8, W2(c.b, p + 6))
SkipMembers(c, p, n) == Fold(LAMBDA q, i : SkipMember(c, q), p, Numbers(n))
RECURSIVE FindBsms(_, _, _)
BsmName == NameCps("BootstrapMethods")
FindBsms(c, p, n) ==      \* <<1, table>> of the first such attribute, Err if there is none
  IF n = 0 \/ ~Has(c, p, 6) THEN Err
  ELSE LET k == Len4(c.b, p + 2) IN
       IF k < 0 \/ ~Has(c, p + 6, k) THEN Err
       ELSE IF Utf8(c.cp, W2(c.b, p)) = <<1, BsmName>> THEN
              IF k < 2 THEN Err
              ELSE LET t == RawBsms([c EXCEPT !.end = p + 5 + k], p + 8, W2(c.b, p + 6)) IN
                   IF Bad(t) THEN Err ELSE <<1, t[2]>>
       ELSE FindBsms(c, p + 6 + k, n - 1)
BsmTable(c, p) ==         \* p: the position after the pool
  IF ~Has(c, p, 8) THEN <<>>
  ELSE LET fp == p + 8 + 2 * W2(c.b, p + 6)
           mp == IF Has(c, fp, 2) THEN SkipMembers(c, fp + 2, W2(c.b, fp)) ELSE 0
           ap == IF mp > 0 /\ Has(c, mp, 2) THEN SkipMembers(c, mp + 2, W2(c.b, mp)) ELSE 0
           r == IF ap > 0 /\ Has(c, ap, 2) THEN FindBsms(c, ap + 2, W2(c.b, ap)) ELSE Err IN
       IF Bad(r) THEN <<>> ELSE r[2]

(* Fields and methods: <<access, name, type, attributes>>.  gs: one guide per   *)
(* member.                                                                      *)
MemberAt(kind, c, p, gs, i) ==
  IF ~Has(c, p, 8) THEN Err
  ELSE LET name == Utf8(c.cp, W2(c.b, p + 2))
           t == DescOf(c.cp, W2(c.b, p + 4))
           as == AttrList(IF kind = "field" THEN FieldTab ELSE MethodTab,
                          [c EXCEPT !.guide = IF i <= Len(gs) THEN gs[i] ELSE <<>>], p + 6) IN
       IF Bad(name) THEN name
       ELSE IF Bad(t) THEN t
       ELSE IF IsMethodType(t[2]) # (kind = "method") THEN Open
       ELSE IF Bad(as) THEN as
       ELSE <<as[1], <<W2(c.b, p) & Masks[kind], name[2], t[2], as[2]>>>>
Members(kind, c, p, n, gs) == Times(LAMBDA q, i : MemberAt(kind, c, q, gs, i), p, n)

(* A whole class file: <<1, class>>, Err or Open.                               *)
DecodeClass(b, guides) ==
  LET c0 == [b |-> b, end |-> Len(b), cp |-> <<>>, bt |-> <<>>, segs |-> <<>>, clen |-> 0, catches |-> <<>>,
             guide |-> <<>>, depth |-> 0] IN
  IF Len(b) < 10 THEN Err
  ELSE IF SubSeq(b, 1, 4) # <<202, 254, 186, 190>> \/ W2(b, 7) \notin 45..59 THEN Err
  ELSE LET pool == PoolAt(c0, 9) IN
  IF Bad(pool) THEN pool
  ELSE LET c1 == [c0 EXCEPT !.cp = pool[2]]
           q == pool[1]
           c == [c1 EXCEPT !.bt = BsmTable(c1, q)]
           hd == ParseSeq(<< <<"flags", Masks.class>>, cls, optcls, v16(cls) >>, c, q) IN
  IF Bad(hd) THEN hd
  ELSE IF ~Has(c, hd[1], 2) THEN Err
  ELSE LET fs == Members("field", c, hd[1] + 2, W2(b, hd[1]), <<>>) IN
  IF Bad(fs) THEN fs
  ELSE IF ~Has(c, fs[1], 2) THEN Err
  ELSE LET ms == Members("method", c, fs[1] + 2, W2(b, fs[1]), guides) IN
  IF Bad(ms) THEN ms
  ELSE LET as == AttrList(ClassTab, c, ms[1]) IN
  IF Bad(as) THEN as
  ELSE IF as[1] # Len(b) + 1 \/ Len(OfKind(as[2], "BootstrapMethods")) > 1 THEN Open
  ELSE <<1, [minor |-> W2(b, 5), major |-> W2(b, 7), access |-> hd[2][1], name |-> hd[2][2], super |-> hd[2][3],
             ifaces |-> hd[2][4], fields |-> fs[2], methods |-> ms[2], attrs |-> as[2]]>>
=============================================================================

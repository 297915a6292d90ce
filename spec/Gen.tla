--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Class files generated from the format tables of ClassFile: for every      *)
(* format term a sequence of byte strings (the first one valid), covering     *)
(* its alternatives one at a time, valid or not.  What each generated class    *)
(* denotes is decided by DecodeClass when the recorded reads and writes are    *)
(* validated (ClassTrace).                                                      *)
(***************************************************************************)
EXTENDS ClassFile

CONSTANTS AllIndices      \* every pool index in every index position, or a selection

Cat(ss) == TLCEval(Concat(ss))
(* Maps f over a sequence.                                                    *)
Map(s, f(_)) == TLCEval([i \in 1..Len(s) |-> f(s[i])])
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})

---------------------------------------------------------------------------
(* The pool of the generated classes: <<key, entry>>, entries refer by key.   *)
U(s) == <<s, <<1, Lit(s)>>>>
UA(i) == <<NameTable[i][1], <<1, NameTable[i][2]>>>>
PoolSource ==
  << U("A"), <<"cA", <<7, "A">>>>, U("B/C"), <<"cB", <<7, "B/C">>>>, U("I"), U("()V"), U("x"), U("yy"),
     <<"ntI", <<12, "x", "I">>>>, <<"ntV", <<12, "x", "()V">>>>,
     <<"fld", <<9, "cA", "ntI">>>>, <<"mth", <<10, "cA", "ntV">>>>, <<"imt", <<11, "cB", "ntV">>>>,
     <<"int", <<3, <<18, 52, 86, 120>>>>>>, <<"flt", <<4, <<127, 192, 0, 1>>>>>>,
     <<"lng", <<5, <<128, 0, 0, 0, 0, 0, 0, 1>>>>>>, <<"dbl", <<6, <<128, 0, 0, 0, 0, 0, 0, 0>>>>>>,
     <<"str", <<8, "x">>>>, <<"mty", <<16, "()V">>>>, <<"hdl", <<15, 6, "mth">>>>,
     <<"hdi", <<15, 9, "imt">>>>, <<"hdf", <<15, 4, "fld">>>>,
     <<"dynI", <<17, 0, "ntI">>>>, <<"ind", <<18, 0, "ntV">>>>,
     U("J"), <<"ntJ", <<12, "yy", "J">>>>, <<"dynJ", <<17, 1, "ntJ">>>>, <<"dynBad", <<17, 9, "ntI">>>>,
     <<"mod", <<19, "x">>>>, <<"pkg", <<20, "B/C">>>>,
     U("[I"), <<"cI", <<7, "[I">>>>, U("[[LA;"), <<"cAA", <<7, "[[LA;">>>>,
     <<"i0", <<3, <<0, 0, 0, 0>>>>>>, <<"i1", <<3, <<0, 0, 0, 1>>>>>>, <<"i127", <<3, <<0, 0, 0, 127>>>>>>,
     <<"i128", <<3, <<0, 0, 0, 128>>>>>>, <<"im128", <<3, <<255, 255, 255, 128>>>>>>, <<"im129", <<3, <<255, 255, 255, 127>>>>>>,
     <<"i32767", <<3, <<0, 0, 127, 255>>>>>>, <<"i32768", <<3, <<0, 0, 128, 0>>>>>>,
     <<"im32768", <<3, <<255, 255, 128, 0>>>>>>, <<"im32769", <<3, <<255, 255, 127, 255>>>>>>,
     <<"i65535", <<3, <<0, 0, 255, 255>>>>>>, <<"i65536", <<3, <<0, 1, 0, 0>>>>>>, <<"im1", <<3, <<255, 255, 255, 255>>>>>>,
     <<"odd", <<1, <<0, 97, 55296, 128512, 57343, 2048>>>>>>, <<"cOdd", <<7, "odd">>>>, U(""),
     <<"cDangling", <<7, "int">>>>, <<"ntDangling", <<12, "x", "lng">>>>, <<"mDangling", <<10, "cA", "ntDangling">>>>,
     U("LA;"), U("V"), U("Lx"), U("LA;x"), U("TT;"), U("(I)I"), U("<init>"),
     U("LB<+LA;-[ITT;>.C<LA;>;"), U("LB<>;"), U("<T:LA;>LA;"), U("<T::LA;:LB;U:TT;>LA;LB<TT;>;"), U("<>LA;"),
     U("<T:LA;>(TT;[IJ)TT;^TT;^LA;"), U("()V^I"), U("Foo"), U("Synthetic2"), U("1.2"), <<"VV", <<1, <<86, 86>>>>>>, <<"Vx", <<1, <<86, 120>>>>>>, <<"[V", <<1, <<91, 86>>>>>>, <<"[", <<1, <<91>>>>>>, <<"II", <<1, <<73, 73>>>>>>, <<"(V)V", <<1, <<40, 86, 41, 86>>>>>>, <<"()", <<1, <<40, 41>>>>>>, <<"()VI", <<1, <<40, 41, 86, 73>>>>>>, <<"D", <<1, <<68>>>>>>, <<"[D", <<1, <<91, 68>>>>>>, <<"T", <<1, <<84>>>>>>, <<"v", <<1, <<118>>>>>> >>
  \o [i \in 1..Len(NameTable) |-> UA(i)]
PoolDef == TLCGet(10)
KeyWidth(i) == IF PoolDef[i][2][1] \in {5, 6} THEN 2 ELSE 1
RECURSIVE Slots(_, _, _)
Slots(i, at, acc) == IF i > Len(PoolDef) THEN <<at, acc>> ELSE Slots(i + 1, at + KeyWidth(i), Append(acc, at))
SlotTab == TLCEval(Slots(1, 1, <<>>))
PoolCount == SlotTab[1]
KeySet == {PoolDef[i][1] : i \in 1..Len(PoolDef)}
IxDef == TLCEval([k \in KeySet |-> SlotTab[2][CHOOSE i \in 1..Len(PoolDef) : PoolDef[i][1] = k]])
(* TLC does not keep the values of definitions with recursive operators: they  *)
(* are computed once by Setup and kept in TLC's registers.                     *)
Ix == TLCGet(11)
EncEntry(e) ==
  CASE e[1] = 1 -> LET m == EncM(e[2]) IN <<1>> \o B2(Len(m)) \o m
    [] e[1] \in 3..6 -> <<e[1]>> \o e[2]
    [] e[1] \in {7, 8, 16, 19, 20} -> <<e[1]>> \o B2(Ix[e[2]])
    [] e[1] \in {9, 10, 11, 12} -> <<e[1]>> \o B2(Ix[e[2]]) \o B2(Ix[e[3]])
    [] e[1] = 15 -> <<15, e[2]>> \o B2(Ix[e[3]])
    [] e[1] \in {17, 18} -> <<e[1]>> \o B2(e[2]) \o B2(Ix[e[3]])
PoolBytesDef == TLCEval(Cat([i \in 1..Len(PoolDef) |-> EncEntry(PoolDef[i][2])]))
PoolBytes == TLCGet(12)
K(k) == B2(Ix[k])
SetupPool(source, cases) == TLCSet(10, source) /\ TLCSet(11, IxDef) /\ TLCSet(12, PoolBytesDef) /\ TLCSet(13, cases)
Setup(cases) == SetupPool(PoolSource, cases)
Case(i) == TLCGet(13)[i]
NCases == Len(TLCGet(13))

---------------------------------------------------------------------------
(* Assembly.                                                                  *)
Attr(k, body) == K(k) \o B4(Len(body)) \o body
List2(xs) == B2(Len(xs)) \o Cat(xs)
Bsm0 == K("hdl") \o B2(0)
Bsm1 == K("hdi") \o B2(2) \o K("lng") \o K("dynI")
BsmAttr == Attr("BootstrapMethods", List2(<<Bsm0, Bsm1>>))
Prologue == <<202, 254, 186, 190, 0, 3, 0, 55>> \o B2(PoolCount) \o PoolBytes
Class(access, fields, methods, attrs) ==
  Prologue \o B2(access) \o K("cA") \o K("cB") \o B2(0) \o List2(fields) \o List2(methods) \o List2(attrs)
Field(attrs) == B2(9) \o K("x") \o K("I") \o List2(attrs)
Method(attrs) == B2(9) \o K("x") \o K("()V") \o List2(attrs)
Code(code, catches, attrs) == B2(2) \o B2(3) \o B4(Len(code)) \o code \o List2(catches) \o List2(attrs)
WithCode(code) == Class(33, <<>>, <<Method(<<Attr("Code", Code(code, <<>>, <<>>))>>)>>, <<BsmAttr>>)

(* iconst_1; istore_1; iinc 1 5; goto +3; sipush 256; nop; return              *)
Body == <<4, 60, 132, 1, 5, 167, 0, 3, 17, 1, 0, 0, 177>>
BodyPcs == {0, 1, 2, 5, 8, 11, 12}
BodyCatches == <<B2(0) \o B2(5) \o B2(8) \o K("cA"), B2(2) \o B2(13) \o B2(11) \o B2(0)>>

---------------------------------------------------------------------------
(* Alternatives.                                                              *)
SomeKeys == <<"cA", "x", "fld", "int", "lng", "str", "ntV", "hdl", "mty", "dynI", "ind", "mod", "pkg", "cOdd", "cDangling",
              "odd", "ntDangling", "mDangling", "">>
Indices(first) ==
  <<K(first)>> \o (IF AllIndices THEN [i \in 1..(PoolCount + 2) |-> B2(i - 1)] ELSE Map(SomeKeys, K) \o <<B2(0), B2(PoolCount), B2(Ix["lng"] + 1)>>)
  \o <<B2(65535)>>
Keys(ks) == Map(ks, K)
Nums2(ns) == Map(ns, B2)
Labels == Nums2(<<5, 0, 1, 2, 8, 11, 12, 13, 3, 10, 14, 256, 65535>>)
Spans == Map(<< <<0, 13>>, <<0, 0>>, <<2, 3>>, <<5, 8>>, <<12, 1>>, <<13, 0>>, <<2, 1>>, <<3, 2>>, <<0, 14>>, <<14, 0>>, <<1, 65535>>, <<5, 3>> >>,
             LAMBDA x : B2(x[1]) \o B2(x[2]))
(* Element values; d bounds the nesting.                                       *)
Ints == <<"int", "i0", "i1", "i127", "i128", "im128", "im129", "i32767", "i32768", "im32768", "im32769", "i65535", "i65536", "im1", "lng", "x", "flt">>
Pair(v) == K("x") \o v
Ann(pairs) == K("LA;") \o List2(pairs)
RECURSIVE Elems(_), Anns(_)
Elems(d) ==
  << <<73>> \o K("int") >>
  \o Cat(Map(<<66, 67, 83, 90, 73>>, LAMBDA t : Map(Ints, LAMBDA k : <<t>> \o K(k))))
  \o Cat(Map(<<68, 70, 74, 115>>, LAMBDA t : Map(<<"dbl", "flt", "lng", "x", "str", "int", "odd">>, LAMBDA k : <<t>> \o K(k))))
  \o Map(<< <<"LA;", "x">>, <<"I", "odd">>, <<"V", "x">>, <<"LA;", "int">>, <<"Lx", "x">> >>, LAMBDA p : <<101>> \o K(p[1]) \o K(p[2]))
  \o Map(<<"LA;", "I", "V", "[[LA;", "()V", "Lx", "int", "VV", "Vx", "[V", "[", "II", "(V)V", "()", "D", "[D", "", "T", "v">>, LAMBDA k : <<99>> \o K(k))
  \o (IF d = 0 THEN <<>> ELSE
       LET es == Elems(d - 1)
           few == SubSeq(es, 1, 1) \o SubSeq(es, 40, 42) \o SubSeq(es, Len(es) - 3, Len(es)) IN
       Map(Anns(d - 1), LAMBDA a : <<64>> \o a)
       \o << <<91>> \o B2(0), <<91>> \o B2(2) \o es[1], <<91>> \o B2(3) \o es[1] \o es[2] \o es[100] >>
       \o Map(few, LAMBDA e : <<91>> \o B2(2) \o es[1] \o e))
  \o << <<0>>, <<76>> \o K("x"), <<255, 0, 1>>, <<73, 0>>, <<101, 0, 1, 0>>, <<64, 0>> >>
Anns(d) ==
  LET es == Elems(d) IN
  << Ann(<<Pair(es[1])>>), Ann(<<>>), Ann(<<Pair(es[1]), K("yy") \o es[100]>>), Ann(<<K("yy") \o es[1], Pair(es[90])>>),
     Ann(<<Pair(es[1]), Pair(es[100])>>), K("()V") \o B2(0), K("Lx") \o B2(0), K("int") \o B2(0), K("I") \o B2(0), B2(0) \o B2(0),
     K("LA;") \o B2(1), K("LA;") \o B2(1) \o K("int") \o es[1], K("LA;") \o B2(1) \o K("odd") \o es[1] >>
  \o (IF d = 0 THEN <<>> ELSE Map(es, LAMBDA e : Ann(<<Pair(e)>>)))
VTypes == << <<1>>, <<0>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<7>> \o K("cA"), <<7>> \o K("int"), <<8, 0, 5>>, <<8, 0, 3>>, <<9>>, <<255>> >>
Frames ==
  << <<0>>, <<63>>, <<64, 1>>, <<127, 6>>, <<128>>, <<246>>, <<247, 0, 5, 1>>, <<248, 0, 1>>, <<249, 0, 1>>, <<250, 1, 0>>, <<251, 255, 255>>,
     <<252, 0, 2, 1>>, <<253, 0, 2, 1, 2>>, <<254, 0, 2, 1, 2, 3>>, <<254, 0, 2, 1, 2>>, <<255, 0, 1, 0, 0, 0, 0>>,
     <<255, 0, 1, 0, 1, 6, 0, 2, 1, 4>>, <<255, 0, 1, 0, 1, 6, 0, 2, 1>>, <<247, 0>> >>
  \o Map(VTypes, LAMBDA v : <<64>> \o v) \o Map(VTypes, LAMBDA v : <<255, 0, 1, 0, 1>> \o v \o <<0, 1>> \o v)

RECURSIVE Alts(_), SeqAlts(_, _)
(* One part varied at a time.                                                  *)
SeqAlts(as, i) ==
  IF i > Len(as) THEN <<>>
  ELSE LET pre == Cat([j \in 1..(i - 1) |-> as[j][1]])
           post == Cat([j \in 1..(Len(as) - i) |-> as[i + j][1]]) IN
       [k \in 1..(Len(as[i]) - 1) |-> pre \o as[i][k + 1] \o post] \o SeqAlts(as, i + 1)
Alts(f) ==
  CASE f[1] = "u1" -> << <<1>>, <<0>>, <<127>>, <<128>>, <<255>> >>
    [] f[1] = "u2" -> Nums2(<<1, 0, 255, 256, 32768, 65535>>)
    [] f[1] = "flags" -> Nums2(<<65535, 0, f[2], 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>)
    [] f[1] = "utf8" -> Indices("x")
    [] f[1] = "name" -> Indices(CASE f[2] = 7 -> "cB" [] f[2] = 19 -> "mod" [] f[2] = 20 -> "pkg")
    [] f[1] = "opt" -> <<Alts(f[2])[1], B2(0)>> \o Tail(Alts(f[2]))
    [] f[1] = "type" -> Keys(<<"I", "LA;", "[I", "[[LA;", "()V", "V", "Lx", "LA;x", "", "x", "cA", "lng", "VV", "Vx", "[V", "[", "II", "(V)V", "()", "()VI", "D", "[D", "T", "v", "(I)I">>) \o <<B2(0), B2(PoolCount)>>
    [] f[1] = "nat" -> Keys(<<"ntV", "ntI", "mth", "cA", "ntDangling", "dynI">>) \o <<B2(0), B2(PoolCount)>>
    [] f[1] = "const" -> Indices("int")
    [] f[1] = "sig" ->
         (CASE f[2] = "csig" -> Keys(<<"LA;", "<T:LA;>LA;", "<T::LA;:LB;U:TT;>LA;LB<TT;>;", "<>LA;", "TT;", "()V", "V", "", "int">>)
            [] f[2] = "fsig" -> Keys(<<"TT;", "LA;", "LB<+LA;-[ITT;>.C<LA;>;", "[I", "[[LA;", "LB<>;", "I", "V", "Lx", "LA;x", "", "int">>)
            [] f[2] = "msig" -> Keys(<<"()V", "(I)I", "<T:LA;>(TT;[IJ)TT;^TT;^LA;", "()V^I", "LA;", "", "int">>)) \o <<B2(0), B2(PoolCount)>>
    [] f[1] = "lab" -> Labels
    [] f[1] = "span" -> Spans
    [] f[1] = "range" -> Map(Spans, LAMBDA s : s \o B2(7)) \o << B2(0) \o B2(13) \o B2(65535) >>
    [] f[1] = "catch" -> Nums2(<<0, 1, 2, 3, 256, 257, 65535>>)
    [] f[1] = "annotation" -> Anns(1)
    [] f[1] = "elem" -> Elems(2)
    [] f[1] = "frame" -> Frames
    [] f[1] = "rest" -> << EncM(<<97, 0, 128512>>), <<>>, <<104, 105>>, <<128>>, <<237, 160, 128>>, <<237, 160>>, <<192, 128>>, <<255>> >>
    [] f[1] = "bsms" -> << List2(<<Bsm0, Bsm1>>), List2(<<Bsm0, Bsm1, Bsm0>>), List2(<<Bsm1, Bsm0>>), List2(<<>>), List2(<<Bsm0>>),
                           List2(<<Bsm0, K("hdl") \o B2(1) \o K("dynJ")>>), List2(<<Bsm0, K("mth") \o B2(0)>>), List2(<<Bsm0, K("hdf") \o B2(3) \o K("str") \o K("mty") \o K("hdl")>>),
                           List2(<<Bsm0, K("hdl") \o B2(1) \o K("dynBad")>>), List2(<<Bsm0, K("hdl") \o B2(1) \o K("ind")>>), List2(<<Bsm0, K("hdl") \o B2(1) \o B2(0)>>),
                           B2(2) \o Bsm0, B2(1) \o K("hdl") \o B2(1) >>
    [] f[1] = "code" -> << Code(Body, BodyCatches, <<>>) >>
    [] f[1] = "seq" -> LET as == TLCEval(Map(f[2], Alts)) IN <<Cat([j \in 1..Len(as) |-> as[j][1]])>> \o SeqAlts(as, 1)
    [] f[1] \in {"v8", "v16"} ->
         LET N(n) == IF f[1] = "v8" THEN <<n>> ELSE B2(n)
             es == Alts(f[2]) IN
         <<N(1) \o es[1], N(0), N(2) \o es[1] \o es[1], N(2) \o es[1], N(0) \o es[1], N(255) \o es[1]>>
         \o [i \in 1..(Len(es) - 1) |-> N(1) \o es[i + 1]] \o [i \in 1..(IF Len(es) > 8 THEN 7 ELSE Len(es) - 1) |-> N(2) \o es[1] \o es[i + 1]]
    [] f[1] = "tag" -> Cat([i \in 1..Len(f[2]) |-> LET as == Alts(f[2][i][3]) IN Map(as, LAMBDA a : <<f[2][i][1]>> \o a)])
                       \o << <<254>>, <<>> >> \o (IF \E i \in 1..Len(f[2]) : f[2][i][1] = 2 THEN << <<4, 0>> >> ELSE << <<2, 0>>, <<15, 0, 0>>, <<24, 0, 0>>, <<63, 0, 0>>, <<76, 0, 0, 0>> >>)

---------------------------------------------------------------------------
(* Placing one attribute list in each of the four positions.                   *)
InClass(as) == Class(33, <<>>, <<>>, as)
InField(as) == Class(33, <<Field(as)>>, <<>>, <<BsmAttr>>)
InMethod(as) == Class(33, <<>>, <<Method(as)>>, <<BsmAttr>>)
InCode(as) == Class(33, <<>>, <<Method(<<Attr("Code", Code(Body, BodyCatches, as))>>)>>, <<BsmAttr>>)
Positions == << <<"class", ClassTab>>, <<"field", FieldTab>>, <<"method", MethodTab>>, <<"code", CodeTab>> >>
InPos(pos, as) == CASE pos = "class" -> InClass(as) [] pos = "field" -> InField(as) [] pos = "method" -> InMethod(as) [] pos = "code" -> InCode(as)
=============================================================================

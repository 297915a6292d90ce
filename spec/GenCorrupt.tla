----------------------------- MODULE GenCorrupt -----------------------------
(***************************************************************************)
(* Faults in well-formed class files.  Four small class files use every kind   *)
(* of count, length, index, tag, offset and flag the format has; a fault is a   *)
(* truncation, a changed byte, a changed two- or four-byte number, an inserted,  *)
(* removed or exchanged byte, at every position.                                 *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS Base,          \* "code", "annotations", "class", "dynamic"
          Values,        \* "some" or "all" values of a changed byte
          Stride         \* every Stride-th position
N(s) == <<s, <<1, NameCps(s)>>>>
Start == << U("A"), <<"cA", <<7, "A">>>>, U("B/C"), <<"cB", <<7, "B/C">>>>, U("I"), U("()V"), U("x"), N("Code") >>
(* -- code ---------------------------------------------------------------------- *)
CodePool == Start \o << U("[I"), <<"cI", <<7, "[I">>>>, U("TT;"), U("LA;"), N("LineNumberTable"), N("LocalVariableTable"), N("LocalVariableTypeTable"), N("StackMapTable"), N("RuntimeVisibleTypeAnnotations"),
                        <<"ntI", <<12, "x", "I">>>>, <<"ntV", <<12, "x", "()V">>>>, <<"fld", <<9, "cA", "ntI">>>>, <<"imt", <<11, "cB", "ntV">>>>,
                        <<"int", <<3, <<18, 52, 86, 120>>>>>>, <<"lng", <<5, <<128, 0, 0, 0, 0, 0, 0, 1>>>>>>, <<"str", <<8, "x">>>> >>
Insns ==
  <<18, Ix["int"], 54, 1, 132, 1, 5, 196, 21, 1, 0, 153, 0, 6, 20>> \o K("lng") \o <<178>> \o K("fld")     \* 0..19
  \o <<170, 0, 0, 0>> \o B4(44) \o B4(1) \o B4(2) \o B4(24) \o B4(49)                                       \* 20..43: 64, 44, 69
  \o <<171, 0, 0, 0>> \o B4(20) \o B4(1) \o B4(7) \o B4(25)                                                 \* 44..63: 64, 69
  \o <<185>> \o K("imt") \o <<1, 0>>                                                                        \* 64..68
  \o <<188, 10, 189>> \o K("cA") \o <<197>> \o K("cI") \o <<1>>                                              \* 69 newarray, 71 anewarray, 74 multianewarray
  \o <<200>> \o B4(-9) \o <<177>>                                                                           \* 78 goto_w 69, 83 return
CodeAttrs == <<Attr("LineNumberTable", List2(<<B2(0) \o B2(7), B2(69) \o B2(8)>>)),
               Attr("LocalVariableTable", List2(<<B2(4) \o B2(13) \o K("x") \o K("I") \o B2(1)>>)),
               Attr("LocalVariableTypeTable", List2(<<B2(4) \o B2(13) \o K("x") \o K("TT;") \o B2(1)>>)),
               Attr("StackMapTable", List2(<< <<17>>, <<255>> \o B2(2) \o B2(1) \o <<7>> \o K("cA") \o B2(1) \o <<8>> \o B2(4), <<252>> \o B2(3) \o <<1>> >>)),
               Attr("RuntimeVisibleTypeAnnotations", List2(<< <<64>> \o List2(<<B2(0) \o B2(4) \o B2(1)>>) \o <<1, 3, 0>> \o K("LA;") \o B2(0),
                                                              <<66>> \o B2(0) \o <<0>> \o K("LA;") \o B2(0),
                                                              <<71>> \o B2(17) \o <<0>> \o <<0>> \o K("LA;") \o B2(0) >>)) >>
CodeCatches == <<B2(0) \o B2(7) \o B2(69) \o K("cA"), B2(17) \o B2(84) \o B2(83) \o B2(0)>>
CodeClass == Class(33, <<>>, <<Method(<<Attr("Code", Code(Insns, CodeCatches, CodeAttrs))>>)>>, <<>>)
(* -- annotations -------------------------------------------------------------------- *)
AnnPool == Start \o << U("LA;"), U("TT;"), U("<T:LA;>LA;"), U("<T:LA;>(TT;[IJ)TT;^TT;^LA;"), U("yy"),
                       N("RuntimeVisibleAnnotations"), N("RuntimeInvisibleTypeAnnotations"), N("AnnotationDefault"), N("RuntimeVisibleParameterAnnotations"), N("Signature"),
                       <<"int", <<3, <<0, 0, 0, 1>>>>>>, <<"flt", <<4, <<127, 192, 0, 1>>>>>>, <<"lng", <<5, <<128, 0, 0, 0, 0, 0, 0, 1>>>>>>, <<"dbl", <<6, <<128, 0, 0, 0, 0, 0, 0, 0>>>>>> >>
El(t, k) == <<t>> \o K(k)
AnnClass ==
  Class(33,
    <<Field(<<Attr("Signature", K("TT;")), Attr("RuntimeInvisibleTypeAnnotations", List2(<< <<19, 2, 0, 0, 3, 1>> \o K("LA;") \o B2(0) >>))>>)>>,
    <<Method(<<Attr("AnnotationDefault", <<91>> \o List2(<<El(66, "int"), El(67, "int"), El(68, "dbl"), El(70, "flt"), El(73, "int"), El(74, "lng"), El(83, "int"), El(90, "int"), El(115, "x"),
                                                           El(101, "LA;") \o K("x"), El(99, "I"), <<64>> \o K("LA;") \o B2(1) \o K("x") \o El(73, "int")>>)),
               Attr("RuntimeVisibleParameterAnnotations", <<2>> \o List2(<<Ann(<<>>)>>) \o List2(<<>>)),
               Attr("RuntimeInvisibleTypeAnnotations", List2(<< <<22, 0, 0>> \o K("LA;") \o B2(0), <<23>> \o B2(0) \o <<0>> \o K("LA;") \o B2(0), <<18, 0, 1, 0>> \o K("LA;") \o B2(0) >>)),
               Attr("Signature", K("<T:LA;>(TT;[IJ)TT;^TT;^LA;"))>>)>>,
    <<Attr("RuntimeVisibleAnnotations", List2(<<Ann(<<K("x") \o El(115, "yy"), K("yy") \o El(73, "int")>>)>>)),
      Attr("Signature", K("<T:LA;>LA;"))>>)
(* -- class attributes ------------------------------------------------------------------- *)
ClassPool == Start \o << <<"odd", <<1, <<0, 97, 55296, 128512, 2048>>>>>>, <<"int", <<3, <<18, 52, 86, 120>>>>>>, <<"ntV", <<12, "x", "()V">>>>, <<"mod", <<19, "x">>>>, <<"pkg", <<20, "B/C">>>>,
                         U("Foo"), N("InnerClasses"), N("EnclosingMethod"), N("NestHost"), N("NestMembers"), N("Module"), N("ModulePackages"), N("ModuleMainClass"), N("SourceDebugExtension"),
                         N("Exceptions"), N("MethodParameters"), N("ConstantValue"), N("Deprecated"), N("SourceFile") >>
ClassClass ==
  Class(33,
    <<Field(<<Attr("ConstantValue", K("int")), Attr("Deprecated", <<>>)>>)>>,
    <<Method(<<Attr("Exceptions", List2(<<K("cA"), K("cB")>>)), Attr("MethodParameters", <<2>> \o K("x") \o B2(16) \o B2(0) \o B2(4096))>>)>>,
    <<Attr("InnerClasses", List2(<<K("cB") \o K("cA") \o K("x") \o B2(9), K("cB") \o B2(0) \o B2(0) \o B2(1)>>)),
      Attr("EnclosingMethod", K("cA") \o K("ntV")), Attr("NestHost", K("cA")), Attr("NestMembers", List2(<<K("cB")>>)),
      Attr("Module", K("mod") \o B2(32) \o K("x") \o List2(<<K("mod") \o B2(64) \o B2(0)>>) \o List2(<<K("pkg") \o B2(0) \o List2(<<K("mod")>>)>>)
                     \o List2(<<K("pkg") \o B2(4096) \o List2(<<>>)>>) \o List2(<<K("cA")>>) \o List2(<<K("cB") \o List2(<<K("cA")>>)>>)),
      Attr("ModulePackages", List2(<<K("pkg")>>)), Attr("ModuleMainClass", K("cB")), Attr("SourceDebugExtension", EncM(<<97, 0, 128512>>)),
      Attr("Foo", <<1, 2, 3>>), Attr("SourceFile", K("odd"))>>)
(* -- dynamic constants ----------------------------------------------------------------------- *)
DynamicPool == Start \o << <<"ntI", <<12, "x", "I">>>>, <<"ntV", <<12, "x", "()V">>>>, <<"fld", <<9, "cA", "ntI">>>>, <<"mth", <<10, "cA", "ntV">>>>, <<"imt", <<11, "cB", "ntV">>>>,
                           <<"hdl", <<15, 6, "mth">>>>, <<"hdi", <<15, 9, "imt">>>>, <<"hdf", <<15, 2, "fld">>>>, <<"mty", <<16, "()V">>>>, <<"lng", <<5, <<0, 0, 0, 0, 0, 0, 0, 7>>>>>>,
                           <<"d0", <<17, 0, "ntI">>>>, <<"d1", <<17, 1, "ntI">>>>, <<"s2", <<18, 2, "ntV">>>>, N("BootstrapMethods") >>
DynamicClass ==
  Class(33, <<>>, <<Method(<<Attr("Code", Code(<<18, Ix["d1"], 19>> \o K("d0") \o <<186>> \o K("s2") \o <<0, 0, 18, Ix["hdf"], 18, Ix["mty"], 177>>, <<>>, <<>>))>>)>>,
    <<Attr("BootstrapMethods", List2(<<K("hdl") \o B2(0), K("hdl") \o B2(2) \o K("d0") \o K("lng"), K("hdl") \o B2(3) \o K("d1") \o K("hdi") \o K("mty")>>))>>)
Source == CASE Base = "code" -> CodePool [] Base = "annotations" -> AnnPool [] Base = "class" -> ClassPool [] Base = "dynamic" -> DynamicPool
Whole == CASE Base = "code" -> CodeClass [] Base = "annotations" -> AnnClass [] Base = "class" -> ClassClass [] Base = "dynamic" -> DynamicClass
---------------------------------------------------------------------------
F == TLCGet(13)
Put(p, s) == SubSeq(F, 1, p - 1) \o s \o SubSeq(F, p + Len(s), Len(F))
SomeValues == <<0, 1, 2, 3, 7, 9, 12, 16, 64, 66, 91, 127, 128, 196, 254, 255>>
ByteValues(x) == IF Values = "all" THEN [k \in 1..256 |-> k - 1] ELSE SomeValues \o <<(x + 1) % 256, (x + 255) % 256, (x + 128) % 256>>
Twos == << <<255, 255>>, <<0, 0>>, <<128, 0>>, <<127, 255>>, <<1, 0>> >>
Fours == << <<255, 255, 255, 255>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<0, 1, 0, 0>>, <<63, 255, 255, 255>> >>
(* The faults at a position, in an order.                                      *)
Faults(p) ==
  LET x == F[p]
      vs == ByteValues(x) IN
  << SubSeq(F, 1, p - 1), SubSeq(F, 1, p - 1) \o SubSeq(F, p + 1, Len(F)), SubSeq(F, 1, p - 1) \o <<0>> \o SubSeq(F, p, Len(F)),
     SubSeq(F, 1, p - 1) \o <<255>> \o SubSeq(F, p, Len(F)), SubSeq(F, 1, p) \o SubSeq(F, p, Len(F)) >>
  \o (IF p < Len(F) THEN <<Put(p, <<F[p + 1], x>>)>> \o [k \in 1..Len(Twos) |-> Put(p, Twos[k])] ELSE <<>>)
  \o (IF p + 3 <= Len(F) THEN [k \in 1..Len(Fours) |-> Put(p, Fours[k])] ELSE <<>>)
  \o [k \in 1..Len(vs) |-> Put(p, <<vs[k]>>)]
VARIABLES p, fs          \* position, the faults there (the whole file at position 0)
Init == SetupPool(Source, <<>>) /\ SetupPool(Source, <<>>) /\ TLCSet(13, TLCEval(Whole)) /\ p = 0 /\ fs = <<>>
Next == /\ p + Stride <= Len(F)
        /\ p' = p + Stride
        /\ fs' = TLCEval(Faults(p'))
Emit == IF p = 0 THEN Assert(DecodeClass(F, <<>>)[1] = 1, "the class file is not well-formed") /\ PrintT("CASE " \o ToJson(<<Base, F>>))
        ELSE \A k \in 1..Len(fs) : (\E j \in 1..(k - 1) : fs[j] = fs[k]) \/ fs[k] = F \/ PrintT("CASE " \o ToJson(<<Base \o " at " \o ToString(p) \o "/" \o ToString(k), fs[k]>>))
=============================================================================

------------------------------- MODULE Limits -------------------------------
(***************************************************************************)
(* What the class-file format can hold (JVMS 4, 4.11): for every counted list,  *)
(* length and range a limit; values at and around it, as classes to write.       *)
(* In a class, [rep |-> n, of |-> x] in a sequence stands for n times x;          *)
(* within x, [ix |-> m] for the number of the copy (modulo m), [txt |-> s] for    *)
(* the text s followed by that number, [b4 |-> 0] and [b8 |-> 0] for it as bytes. *)
(***************************************************************************)
EXTENDS GenLib
Rep(n, x) == << [rep |-> n, of |-> x] >>
A == <<65>>
X == <<120>>
V0 == <<"(", <<>>, <<>>>>
Ii == <<"I">>
La == <<"L", A>>
Ann0 == <<La, <<>>>>
C0(b) == [stack |-> 1, locals |-> 1, n |-> Len(b), ops |-> b, catches |-> <<>>, lines |-> <<>>, vars |-> <<>>, attrs |-> <<>>]
Cd == C0(<< <<"return", "V">> >>)
Cl == [minor |-> 0, major |-> 55, access |-> 33, name |-> A, super |-> <<A>>, ifaces |-> <<>>, fields |-> <<>>, methods |-> <<>>, attrs |-> <<>>]
InC(k, v) == [Cl EXCEPT !.attrs = << <<k, v>> >>]
InF(k, v) == [Cl EXCEPT !.fields = << <<9, X, Ii, << <<k, v>> >>>> >>]
InM(k, v) == [Cl EXCEPT !.methods = << <<9, X, V0, << <<k, v>> >>>> >>]
InK(c) == InM("Code", c)
RawA == <<"Raw", <<X, <<7>>>>>>
H0 == <<"h", 6, <<"m", A, X, V0, 0>>>>
I0 == <<"int", <<0, 0, 0, 0>>>>
Mod(r, e, o, u, p) == InC("Module", <<X, 0, <<>>, r, e, o, u, p>>)
TAnn(t, p) == <<t, p, Ann0>>
Big == 65535
(* -- counted lists: <<kind, limit, class with n items>> ------------------------------ *)
Lists(n) ==
  << <<"interfaces", Big, [Cl EXCEPT !.ifaces = Rep(n, A)]>>,
     <<"fields", Big, [Cl EXCEPT !.fields = Rep(n, <<9, X, Ii, <<>>>>)]>>,
     <<"methods", Big, [Cl EXCEPT !.methods = Rep(n, <<9, X, V0, <<>>>>)]>>,
     <<"class attributes", Big, [Cl EXCEPT !.attrs = Rep(n, RawA)]>>,
     <<"field attributes", Big, [Cl EXCEPT !.fields = << <<9, X, Ii, Rep(n, RawA)>> >>]>>,
     <<"method attributes", Big, [Cl EXCEPT !.methods = << <<9, X, V0, Rep(n, RawA)>> >>]>>,
     <<"code attributes", Big, InK([Cd EXCEPT !.attrs = Rep(n, RawA)])>>,
     <<"InnerClasses", Big, InC("InnerClasses", Rep(n, <<A, <<>>, <<>>, 1>>))>>,
     <<"NestMembers", Big, InC("NestMembers", Rep(n, A))>>,
     <<"ModulePackages", Big, InC("ModulePackages", Rep(n, A))>>,
     <<"requires", Big, Mod(Rep(n, <<X, 64, <<>>>>), <<>>, <<>>, <<>>, <<>>)>>,
     <<"exports", Big, Mod(<<>>, Rep(n, <<X, 0, <<>>>>), <<>>, <<>>, <<>>)>>,
     <<"exports to", Big, Mod(<<>>, << <<X, 0, Rep(n, A)>> >>, <<>>, <<>>, <<>>)>>,
     <<"opens", Big, Mod(<<>>, <<>>, Rep(n, <<X, 0, <<>>>>), <<>>, <<>>)>>,
     <<"opens to", Big, Mod(<<>>, <<>>, << <<X, 0, Rep(n, A)>> >>, <<>>, <<>>)>>,
     <<"uses", Big, Mod(<<>>, <<>>, <<>>, Rep(n, A), <<>>)>>,
     <<"provides", Big, Mod(<<>>, <<>>, <<>>, <<>>, Rep(n, <<A, <<>>>>))>>,
     <<"provides with", Big, Mod(<<>>, <<>>, <<>>, <<>>, << <<A, Rep(n, A)>> >>)>>,
     <<"Exceptions", Big, InM("Exceptions", Rep(n, A))>>,
     <<"class annotations", Big, InC("RuntimeVisibleAnnotations", Rep(n, Ann0))>>,
     <<"field annotations", Big, InF("RuntimeInvisibleAnnotations", Rep(n, Ann0))>>,
     <<"method annotations", Big, InM("RuntimeVisibleAnnotations", Rep(n, Ann0))>>,
     <<"class type annotations", Big, InC("RuntimeVisibleTypeAnnotations", Rep(n, TAnn(<<"super", 0>>, <<>>)))>>,
     <<"field type annotations", Big, InF("RuntimeInvisibleTypeAnnotations", Rep(n, TAnn(<<"field">>, <<>>)))>>,
     <<"method type annotations", Big, InM("RuntimeVisibleTypeAnnotations", Rep(n, TAnn(<<"return">>, <<>>)))>>,
     <<"code type annotations", Big, InK([Cd EXCEPT !.attrs = << <<"RuntimeVisibleTypeAnnotations", Rep(n, TAnn(<<"new", 0>>, <<>>))>> >>])>>,
     <<"variable ranges", Big, InK([Cd EXCEPT !.attrs = << <<"RuntimeVisibleTypeAnnotations", <<TAnn(<<"var", Rep(n, <<0, 1, 0>>)>>, <<>>)>>>> >>])>>,
     <<"annotations of a parameter", Big, InM("RuntimeVisibleParameterAnnotations", <<Rep(n, Ann0)>>)>>,
     <<"array elements", Big, InM("AnnotationDefault", <<"[", Rep(n, <<"Z", 1>>)>>)>>,
     <<"catches", Big, InK([Cd EXCEPT !.catches = Rep(n, <<0, 1, 0, <<>>>>)])>>,
     <<"lines", Big, InK([Cd EXCEPT !.lines = Rep(n, <<0, 7>>)])>>,
     <<"variables", Big, InK([Cd EXCEPT !.vars = Rep(n, <<0, 1, X, <<Ii>>, [ix |-> 65536], <<>>>>)])>>,
     <<"generic variables", Big, InK([Cd EXCEPT !.vars = Rep(n, <<0, 1, X, <<>>, [ix |-> 65536], << <<"T", X>> >>>>)])>>,
     <<"bootstrap methods", Big, InC("BootstrapMethods", Rep(n, <<H0, <<>>>>))>>,
     <<"bootstrap arguments", Big, InC("BootstrapMethods", << <<H0, Rep(n, I0)>> >>)>>,
     <<"bootstrap arguments of a call site", Big, InK(C0(<< <<"invokedynamic", <<"dyn", <<H0, Rep(n, I0)>>, X, V0>> >>, <<"return", "V">> >>))>>,
     <<"MethodParameters", 255, InM("MethodParameters", Rep(n, <<<<X>>, 16>>))>>,
     <<"annotated parameters", 255, InM("RuntimeInvisibleParameterAnnotations", Rep(n, <<>>))>>,
     <<"type path of a class", 255, InC("RuntimeVisibleTypeAnnotations", <<TAnn(<<"super", 0>>, Rep(n, <<"nested", 0>>))>>)>>,
     <<"type path of a field", 255, InF("RuntimeVisibleTypeAnnotations", <<TAnn(<<"field">>, Rep(n, <<"array", 0>>))>>)>>,
     <<"type path of a method", 255, InM("RuntimeVisibleTypeAnnotations", <<TAnn(<<"return">>, Rep(n, <<"array", 0>>))>>)>>,
     <<"type path in code", 255, InK([Cd EXCEPT !.attrs = << <<"RuntimeVisibleTypeAnnotations", <<TAnn(<<"new", 0>>, Rep(n, <<"bound", 0>>))>>>> >>])>>,
     <<"code bytes", Big, InK([C0(<< <<"nops", n - 1>>, <<"return", "V">> >>) EXCEPT !.n = n])>> >>
(* -- strings: a text of n characters of w bytes each; more: what else the text holds ---- *)
Chars == << <<"ascii", 97, 1>>, <<"nul", 0, 2>>, <<"two", 233, 2>>, <<"three", 8364, 3>>, <<"lone", 55296, 3>>, <<"pair", 128512, 6>> >>
Texts(c, s) ==
  << <<"class name", 0, [Cl EXCEPT !.name = s]>>,
     <<"super name", 0, [Cl EXCEPT !.super = <<s>>]>>,
     <<"interface name", 0, [Cl EXCEPT !.ifaces = <<s>>]>>,
     <<"field name", 0, [Cl EXCEPT !.fields = << <<9, s, Ii, <<>>>> >>]>>,
     <<"method name", 0, [Cl EXCEPT !.methods = << <<9, s, V0, <<>>>> >>]>>,
     <<"field type", 2, [Cl EXCEPT !.fields = << <<9, X, <<"L", s>>, <<>>>> >>]>>,
     <<"field array type", 5, [Cl EXCEPT !.fields = << <<9, X, <<"[", 3, <<"L", s>>>>, <<>>>> >>]>>,
     <<"method type", 5, [Cl EXCEPT !.methods = << <<9, X, <<"(", << <<"L", s>> >>, <<>>>>, <<>>>> >>]>>,
     <<"string constant", 0, InF("ConstantValue", <<"string", s>>)>>,
     <<"class constant", 0, InK(C0(<< <<"push", <<"class", s>> >>, <<"return", "V">> >>))>>,
     <<"member name", 0, InK(C0(<< <<"field", "get", "static", <<"m", A, s, Ii, 0>> >>, <<"return", "V">> >>))>>,
     <<"call site name", 0, InK(C0(<< <<"invokedynamic", <<"dyn", <<H0, <<>>>>, s, V0>> >>, <<"return", "V">> >>))>>,
     <<"SourceFile", 0, InC("SourceFile", s)>>,
     <<"element string", 0, InM("AnnotationDefault", <<"s", s>>)>>,
     <<"element name", 0, InC("RuntimeVisibleAnnotations", << <<La, << <<s, <<"Z", 0>>>> >>>> >>)>>,
     <<"enum constant", 0, InM("AnnotationDefault", <<"e", La, s>>)>>,
     <<"attribute name", 0, InC("Raw", <<s, <<>>>>)>>,
     <<"module version", 0, InC("Module", <<X, 0, <<s>>, <<>>, <<>>, <<>>, <<>>, <<>>>>)>>,
     <<"variable name", 0, InK([Cd EXCEPT !.vars = << <<0, 1, s, <<Ii>>, 0, <<>>>> >>])>>,
     <<"parameter name", 0, InM("MethodParameters", << <<<<s>>, 0>> >>)>>,
     <<"signature", 2, InF("Signature", <<"T", s>>)>> >>
(* A text that is no constant: the length of its attribute is its only limit.            *)
Free(s) == << <<"SourceDebugExtension", InC("SourceDebugExtension", s)>> >>
(* -- constant-pool slots: every item needs k of them, and the class a few more ------------ *)
Slots(n) ==
  << <<"ints", 1, InM("AnnotationDefault", <<"[", Rep(n, <<"I", [b4 |-> 0]>>)>>)>>,
     <<"longs", 2, InM("AnnotationDefault", <<"[", Rep(n, <<"J", [b8 |-> 0]>>)>>)>>,
     <<"strings", 1, InM("AnnotationDefault", <<"[", Rep(n, <<"s", [txt |-> X]>>)>>)>>,
     <<"field names", 1, [Cl EXCEPT !.fields = Rep(n, <<9, [txt |-> X], Ii, <<>>>>)]>>,
     <<"classes", 2, InM("Exceptions", Rep(n, [txt |-> X]))>>,
     <<"element names", 1, InC("RuntimeVisibleAnnotations", << <<La, Rep(n, <<[txt |-> X], <<"Z", 0>>>>)>> >>)>> >>
(* -- the bootstrap table: an explicit one, and a call site that needs one more ------------- *)
TableAnd(n, site) == [InK(C0(<< <<"invokedynamic", <<"dyn", site, X, V0>> >>, <<"return", "V">> >>)) EXCEPT !.attrs = << <<"BootstrapMethods", Rep(n, <<H0, <<>>>>)>> >>]
(* Attributes, and a table no one mentions.                                                 *)
AttrsAnd(n) == [InK(C0(<< <<"invokedynamic", <<"dyn", <<H0, <<>>>>, X, V0>> >>, <<"return", "V">> >>)) EXCEPT !.attrs = Rep(n, RawA)]
(* ------------------------------------------------------------------------------------ *)
(* Verdicts: "fits" (must be written, and read back the same), "not" (must be an          *)
(* error), "either" (an error, or the same).                                              *)
Fits(b) == IF b THEN "fits" ELSE "not"
OfList(k, limit, n) == Fits(n <= limit)
OfText(more, w, n) == Fits(more + w * n <= Big)
OfSlots(k, n) == IF k * n > 65534 THEN "not" ELSE IF k * n <= 65400 THEN "fits" ELSE "either"
ListCases(n) == Map(Lists(n), LAMBDA x : <<x[1], n, OfList(x[1], x[2], n), x[3]>>)
TextCases(c) == LET top == Big \div c[3] IN
  Joined(Map(<<top - 3, top - 2, top - 1, top, top + 1, 65536>>, LAMBDA n :
    LET keep == IF c[1] \in {"ascii", "three"} THEN {0, 2, 5} ELSE {0, 2} IN
    Map(SelectSeq(Texts(c, Rep(n, c[2])), LAMBDA x : x[2] \in keep /\ ~(c[1] = "lone" /\ x[1] = "signature") /\ (c[1] = "ascii" \/ n # 65536)),
        LAMBDA x : <<x[1] \o " " \o c[1], n, OfText(x[2], c[3], n), x[3]>>)))
  \o Map(Free(Rep(70000, c[2])), LAMBDA x : <<x[1] \o " " \o c[1], 70000, "fits", x[2]>>)
SlotCases(n) == Map(Slots(n), LAMBDA x : <<"slots: " \o x[1], n, OfSlots(x[2], n), x[3]>>)
TableCases == << <<"table and a new method", 65534, "fits", TableAnd(65534, <<H0, <<I0>>>>)>>, <<"table and a new method", 65535, "not", TableAnd(65535, <<H0, <<I0>>>>)>>,
                 <<"table and its method", 65535, "fits", TableAnd(65535, <<H0, <<>>>>)>>,
                 <<"attributes and a table", 65534, "fits", AttrsAnd(65534)>>, <<"attributes and a table", 65535, "not", AttrsAnd(65535)>> >>
=============================================================================

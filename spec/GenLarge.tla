------------------------------ MODULE GenLarge ------------------------------
(***************************************************************************)
(* Classes, as values, with more of something than a byte counts: constants    *)
(* around index 256 of the pool, lists of about 256 items, contents of about    *)
(* 256 and 65536 bytes; and a few families of special values.                    *)
(***************************************************************************)
EXTENDS GenLib, Json
CONSTANTS Part             \* "pool", "types", "lists", "args", "annotations", "catches", "debug", "switches", "raw", "texts"
A == <<65>>
X == <<120>>
I == <<"I">>
V0 == <<"(", <<>>, <<>>>>
La == <<"L", A>>
Name(k) == <<97 + (k \div 26), 97 + (k % 26)>>
Copies(n, x) == [k \in 1..n |-> x]
Counts == <<127, 128, 254, 255, 256, 257, 300>>
Code(ops) == [stack |-> 1, locals |-> 2, n |-> Len(ops) + 1, ops |-> Append(ops, <<"return", "V">>), catches |-> <<>>, lines |-> <<>>, vars |-> <<>>, attrs |-> <<>>]
Empty == [minor |-> 0, major |-> 55, access |-> 33, name |-> A, super |-> <<A>>, ifaces |-> <<>>, fields |-> <<>>, methods |-> <<>>, attrs |-> <<>>]
Method(attrs) == <<9, <<109>>, V0, attrs>>
WithCode(c) == [Empty EXCEPT !.methods = <<Method(<< <<"Code", c>> >>)>>]
WithMethod(attrs) == [Empty EXCEPT !.methods = <<Method(attrs)>>]
WithField(attrs) == [Empty EXCEPT !.fields = << <<2, X, I, attrs>> >>]
WithAttrs(attrs) == [Empty EXCEPT !.attrs = attrs]

(* -- constants around index 256 ------------------------------------------------ *)
Mem(n, t, itf) == <<"m", <<66>>, n, t, itf>>
H0 == <<"h", 6, Mem(X, V0, 0)>>
B0 == <<H0, <<>>>>
DynC(b, n, t) == <<"dyn", b, n, t>>
Pool1 == << <<"push", <<"int", <<1, 2, 3, 4>>>>>>, <<"push", <<"float", <<1, 2, 3, 4>>>>>>, <<"push", <<"string", <<115>>>>>>, <<"push", <<"class", <<99>>>>>>,
            <<"push", <<"mtype", <<"(", <<I, I, I>>, <<>>>>>>>>, <<"push", <<"handle", 5, Mem(<<104>>, V0, 0)>>>>, <<"push", DynC(B0, <<100>>, I)>>, <<"push", DynC(B0, <<101>>, <<"J">>)>>,
            <<"push", <<"long", <<1, 2, 3, 4, 5, 6, 7, 8>>>>>>, <<"push", <<"double", <<1, 2, 3, 4, 5, 6, 7, 8>>>>>>, <<"push", <<"int", <<1, 2, 3, 5>>>>>>, <<"push", <<"class", <<91, 73>>>>>>,
            <<"new", <<110>>>>, <<"checkcast", <<"L", <<107>>>>>>, <<"instanceof", <<"[", 1, <<"L", <<105>>>>>>>>, <<"newarray", <<"L", <<97>>>>, 1>>, <<"newarray", <<"[", 3, I>>, 2>>,
            <<"field", "get", "static", Mem(<<102>>, I, 0)>>, <<"field", "put", "virtual", Mem(<<103>>, I, 0)>>, <<"invoke", "virtual", Mem(<<118>>, V0, 0)>>, <<"invoke", "static", Mem(<<116>>, V0, 1)>>,
            <<"invokeinterface", Mem(<<117>>, V0, 1), 1>>, <<"invokedynamic", DynC(B0, <<121>>, V0)>>, <<"push", DynC(B0, <<122>>, <<"D">>)>>, <<"push", <<"string", <<122, 122>>>>>> >>
Rotated(s, d) == [k \in 1..Len(s) |-> s[((k + d - 1) % Len(s)) + 1]]
Interfaces(n) == [k \in 1..n |-> Name(k)]
PoolAt(f, d) == [WithCode(Code(Rotated(Pool1, d))) EXCEPT !.ifaces = Interfaces(f)]
Pool == Pairs(Upto(88, 126), <<0, 6, 12, 18>>, LAMBDA f, d : PoolAt(f, d)) 
        \o Map(Upto(1, Len(Pool1)), LAMBDA d : PoolAt(123, d)) \o Map(Upto(1, Len(Pool1)), LAMBDA d : PoolAt(124, d))
        \o Map(<<300, 600>>, LAMBDA f : PoolAt(f, 0)) \o << [WithCode(Code(Pool1)) EXCEPT !.ifaces = [k \in 1..16400 |-> <<97 + (k \div 676)>> \o Name(k % 676)]] >>
        \o Map(<< "int", "float" >>, LAMBDA k : WithCode(Code([j \in 1..270 |-> <<"push", <<k, <<1, 1, j \div 256, j % 256>>>>>>])))
        \o Map(<< "string", "class" >>, LAMBDA k : WithCode(Code([j \in 1..140 |-> <<"push", <<k, Name(j)>>>>])))
        \o << WithCode(Code([j \in 1..90 |-> <<"push", DynC(B0, Name(j), <<"L", Name(j)>>)>>])), WithCode(Code([j \in 1..140 |-> <<"push", <<"mtype", <<"(", << <<"L", Name(j)>> >>, <<>>>>>>>>])) >>
(* -- every type of a dynamic constant, and every place of a type ----------------- *)
Scalars == << I, <<"B">>, <<"C">>, <<"D">>, <<"F">>, <<"J">>, <<"S">>, <<"Z">>, La, <<"L", <<68>>>>, <<"L", <<74>>>> >>
Types == Scalars \o For(<<1, 2, 255>>, LAMBDA d : Map(Scalars, LAMBDA t : <<"[", d, t>>))
TypeUses(t) == << WithCode(Code(<< <<"push", DynC(B0, X, t)>> >>)), WithCode(Code(<< <<"push", <<"int", <<9, 9, 9, 9>>>>>>, <<"push", DynC(B0, X, t)>>, <<"push", DynC(B0, X, t)>> >>)),
                  WithCode(Code(<< <<"push", DynC(<<H0, <<DynC(B0, X, t)>>>>, X, t)>> >>)),
                  WithCode(Code(<< <<"field", "get", "static", Mem(X, t, 0)>>, <<"field", "put", "virtual", Mem(X, t, 0)>> >>)),
                  WithCode(Code(<< <<"invoke", "static", Mem(X, <<"(", <<t>>, <<t>>>>, 0)>>, <<"invokedynamic", DynC(B0, X, <<"(", <<t, t>>, <<>>>>)>>, <<"push", <<"mtype", <<"(", <<I, t>>, <<t>>>>>>>> >>)),
                  WithCode([Code(<<>>) EXCEPT !.vars = << <<0, 1, X, <<t>>, 1, <<>>>> >>]),
                  [Empty EXCEPT !.fields = << <<2, X, t, <<>>>> >>], [Empty EXCEPT !.methods = << <<9, X, <<"(", <<t, I, t>>, <<t>>>>, <<>>>> >>],
                  WithField(<< <<"RuntimeVisibleAnnotations", << <<t, << <<X, <<"c", <<t>>>>>>, <<<<121>>, <<"e", t, X>>>> >>>> >>>> >>) >>
TypeCases == For(Types, TypeUses)
(* Constants of fields.                                                           *)
Consts == << <<"int", <<255, 255, 255, 255>>>>, <<"float", <<128, 0, 0, 0>>>>, <<"long", <<128, 0, 0, 0, 0, 0, 0, 1>>>>, <<"double", <<255, 248, 0, 0, 0, 0, 0, 1>>>>, <<"string", <<>>>>, <<"string", <<91, 73>>>>, <<"string", <<0, 55296, 128512>>>> >>
ConstCases == Pairs(Types, Consts, LAMBDA t, k : [Empty EXCEPT !.fields = << <<26, X, t, << <<"ConstantValue", k>> >>>> >>])

(* -- lists ------------------------------------------------------------------------ *)
ListsOf(n) ==
  << [Empty EXCEPT !.ifaces = Interfaces(n)],
     [Empty EXCEPT !.fields = [k \in 1..n |-> <<2, Name(k), I, <<>>>>]],
     [Empty EXCEPT !.methods = [k \in 1..n |-> <<1025, Name(k), V0, <<>>>>]],
     WithMethod(<< <<"Exceptions", Interfaces(n)>> >>), WithMethod(<< <<"Exceptions", Copies(n, X)>> >>),
     WithMethod(<< <<"MethodParameters", [k \in 1..(IF n > 255 THEN 255 ELSE n) |-> <<IF k % 3 = 0 THEN <<>> ELSE <<Name(k)>>, IF k % 2 = 0 THEN 16 ELSE 0>>]>> >>),
     WithAttrs(<< <<"InnerClasses", [k \in 1..n |-> <<Name(k), IF k % 2 = 0 THEN <<>> ELSE <<A>>, IF k % 3 = 0 THEN <<>> ELSE <<Name(k + 1)>>, k % 2>>]>> >>),
     WithAttrs(<< <<"NestMembers", Interfaces(n)>> >>),
     WithAttrs(<< <<"ModulePackages", Interfaces(n)>> >>),
     WithAttrs(<< <<"Module", <<X, 32, <<A>>, [k \in 1..n |-> <<Name(k), 0, IF k % 2 = 0 THEN <<>> ELSE <<Name(k)>>>>], <<>>, <<>>, <<>>, <<>>>>>> >>),
     WithAttrs(<< <<"Module", <<X, 0, <<>>, <<>>, [k \in 1..n |-> <<Name(k), 0, <<>>>>], << <<X, 0, Interfaces(n)>> >>, Interfaces(n), << <<X, <<>>>> >>>>>> >>),
     WithAttrs(<< <<"Module", <<X, 0, <<>>, <<>>, << <<X, 4096, Interfaces(n)>>, <<A, 0, <<X>>>> >>, [k \in 1..n |-> <<Name(k), 0, <<Name(k)>>>>], <<>>, << <<X, Interfaces(n)>>, <<A, <<X>>>> >>>>>> >>),
     WithAttrs(<< <<"Module", <<X, 0, <<>>, <<>>, <<>>, <<>>, <<>>, [k \in 1..n |-> <<Name(k), <<Name(k + 1)>>>>]>>>> >>),
     WithAttrs(<< <<"Signature", <<"C", [k \in 1..n |-> <<Name(k), <<>>, << <<"T", X>> >>>>], <<A, <<>>, <<>>>>, <<>>>>>> >>) >>
Lists == For(Counts, LAMBDA n : SubSeq(ListsOf(n), 1, 13))

(* -- bootstrap methods ------------------------------------------------------------ *)
Num(k) == <<"int", <<0, 0, k \div 256, k % 256>>>>
Bn(n) == <<H0, [k \in 1..n |-> Num(k)]>>
Args == For(Counts, LAMBDA n : << WithCode(Code(<< <<"invokedynamic", DynC(Bn(n), X, V0)>> >>)), WithCode(Code(<< <<"push", DynC(Bn(n), X, I)>>, <<"invokedynamic", DynC(Bn(n - 1), X, V0)>>, <<"push", DynC(Bn(n), X, <<"J">>)>> >>)),
             WithCode(Code(<< <<"push", DynC(<<H0, Copies(n, Num(1))>>, X, I)>>, <<"push", DynC(<<H0, Copies(n - 1, Num(1)) \o <<Num(2)>>>>, X, I)>> >>)),
             WithCode(Code(<< <<"push", DynC(<<H0, Append(Copies(n - 1, Num(1)), DynC(B0, A, I))>>, X, I)>>, <<"push", DynC(<<H0, Append(Copies(n - 1, Num(1)), DynC(B0, X, I))>>, X, I)>> >>)),
             WithAttrs(<< <<"BootstrapMethods", [k \in 1..n |-> <<H0, <<Num(k)>>>>]>> >>),
             WithCode(Code([k \in 1..n |-> <<"push", DynC(<<H0, <<Num(k)>>>>, X, I)>>])),
             [WithCode(Code(<< <<"push", DynC(<<H0, <<Num(n)>>>>, X, I)>>, <<"invokedynamic", DynC(<<H0, <<Num(n + 1)>>>>, X, V0)>> >>)) EXCEPT !.attrs = << <<"BootstrapMethods", [k \in 1..n |-> <<H0, <<Num(k)>>>>]>> >>] >>)

(* -- annotations ------------------------------------------------------------------- *)
Ann(k) == << <<"L", Name(k)>>, << <<X, <<"I", <<0, 0, 1, k % 256>>>>>> >>>>
NoAnn == <<La, <<>>>>
AnnsOf(n) ==
  LET as == [k \in 1..n |-> Ann(k)]
      es == [k \in 1..n |-> <<Name(k), <<"B", k % 128>>>>]
      arr == [k \in 1..n |-> <<"S", k>>]
      b == IF n > 255 THEN 255 ELSE n
      path == [k \in 1..b |-> IF k % 2 = 0 THEN <<"nested", 0>> ELSE <<"arg", k>>] IN
  << WithField(<< <<"RuntimeVisibleAnnotations", as>> >>), WithField(<< <<"RuntimeInvisibleAnnotations", << <<La, es>>, NoAnn >>>> >>),
     WithMethod(<< <<"AnnotationDefault", <<"[", arr>>>> >>), WithMethod(<< <<"RuntimeVisibleAnnotations", << <<La, << <<X, <<"[", arr>>>> >>>>, NoAnn >>>>, <<"RuntimeInvisibleAnnotations", as>> >>),
     WithMethod(<< <<"RuntimeVisibleParameterAnnotations", [k \in 1..b |-> IF k % 5 = 0 THEN <<NoAnn, Ann(k)>> ELSE <<>>]>> >>),
     WithMethod(<< <<"RuntimeInvisibleParameterAnnotations", <<<<>>, as, <<NoAnn>>>>>> >>),
     WithMethod(<< <<"RuntimeVisibleTypeAnnotations", [k \in 1..n |-> << <<"formal", k % 256>>, <<>>, Ann(k)>>]>> >>),
     WithAttrs(<< <<"RuntimeInvisibleTypeAnnotations", << << <<"super", n>>, path, NoAnn>>, << <<"super", 65535>>, <<>>, Ann(1)>> >>>> >>),
     WithField(<< <<"RuntimeVisibleTypeAnnotations", << << <<"field">>, path, <<La, es>>>>, << <<"field">>, <<>>, NoAnn>> >>>> >>),
     WithCode([Code(Copies(n, <<"dup">>)) EXCEPT !.attrs = << <<"RuntimeVisibleTypeAnnotations", << << <<"var", [k \in 1..n |-> <<k - 1, k, k>>]>>, <<>>, NoAnn>>, << <<"new", n>>, <<>>, Ann(2)>> >>>> >>]),
     WithCode([Code(Copies(n, <<"dup">>)) EXCEPT !.attrs = << <<"RuntimeInvisibleTypeAnnotations", [k \in 1..n |-> << <<"cast", k - 1, k % 256>>, <<>>, NoAnn>>]>> >>]) >>
ClassStrings == << <<>>, <<"I">> >>
Elems == << <<"B", -1>>, <<"B", 127>>, <<"B", -128>>, <<"C", 65535>>, <<"C", 32768>>, <<"S", -1>>, <<"S", -32768>>, <<"S", 32767>>, <<"Z", 1>>, <<"Z", 0>>, <<"I", <<255, 255, 255, 255>>>>, <<"c", <<>>>>, <<"c", <<La>>>>,
            <<"c", << <<"[", 1, <<"J">>>> >>>>, <<"s", <<>>>>, <<"s", <<86>>>>, <<"e", La, <<>>>>, <<"e", <<"[", 1, I>>, X>>, <<"@", NoAnn>>, <<"[", <<>>>>, <<"[", << <<"[", <<>>>>, <<"B", 1>> >>>>,
            <<"F", <<255, 192, 0, 1>>>>, <<"D", <<127, 240, 0, 0, 0, 0, 0, 1>>>>, <<"J", <<128, 0, 0, 0, 0, 0, 0, 0>>>> >>
ElemPairs == Pairs(Elems, Elems, LAMBDA x, y : WithMethod(<< <<"RuntimeVisibleAnnotations", << <<La, << <<X, y>>, <<<<121>>, x>> >>>> >>>>, <<"AnnotationDefault", <<"[", <<x, y, x>>>>>> >>))
Annotations == For(Counts, AnnsOf) \o ElemPairs

(* -- catches that share their parts, with annotations on each ------------------------- *)
Spans3 == << <<0, 2, 4>>, <<0, 2, 5>>, <<0, 3, 4>>, <<1, 2, 4>> >>
CatchTypes == << <<>>, <<A>>, <<X>> >>
AllCatches == Pairs(Spans3, CatchTypes, LAMBDA s, t : <<s[1], s[2], s[3], t>>)
Dups(n) == Copies(n, <<"dup">>)
CatchClass(cs, as) == WithCode([Code(Dups(6)) EXCEPT !.catches = cs,
      !.attrs = IF as = <<>> THEN <<>> ELSE << <<"RuntimeVisibleTypeAnnotations", Map(as, LAMBDA c : << <<"catch", c>>, <<>>, NoAnn>>)>> >>])
Two == Pairs(AllCatches, AllCatches, LAMBDA x, y : <<x, y>>)
Distinct2 == SelectSeq(Two, LAMBDA p : p[1] # p[2])
CatchCases == For(Distinct2, LAMBDA p : << CatchClass(p, <<p[1]>>), CatchClass(p, <<p[2], p[1]>>) >>)
              \o Map(AllCatches, LAMBDA x : CatchClass(SelectSeq(AllCatches, LAMBDA y : y # x) \o <<x>>, <<x, AllCatches[1]>>))
              \o << CatchClass(AllCatches, AllCatches), CatchClass(<<AllCatches[1], AllCatches[1]>>, <<>>) >>
              \o Map(Counts, LAMBDA n : WithCode([Code(Dups(n)) EXCEPT !.catches = [k \in 1..n |-> <<k - 1, k, n, IF k % 3 = 0 THEN <<>> ELSE <<Name(k)>>>>],
                                                 !.attrs = << <<"RuntimeInvisibleTypeAnnotations", << << <<"catch", <<n - 2, n - 1, n, IF (n - 1) % 3 = 0 THEN <<>> ELSE <<Name(n - 1)>>>>>>, <<>>, NoAnn>> >>>> >>]))

(* -- lines and variables ---------------------------------------------------------------- *)
DebugOf(n) ==
  << WithCode([Code(Dups(n)) EXCEPT !.lines = [k \in 1..n |-> <<k, k>>]]), WithCode([Code(Dups(3)) EXCEPT !.lines = [k \in 1..n |-> <<2, 65536 - k>>]]),
     WithCode([Code(Dups(n)) EXCEPT !.lines = [k \in 1..(n + 1) |-> <<k - 1, (k * 257) % 65536>>]]),
     WithCode([Code(Dups(3)) EXCEPT !.vars = [k \in 1..n |-> <<0, 4, Name(k), <<I>>, k - 1, <<>>>>]]),
     WithCode([Code(Dups(3)) EXCEPT !.vars = [k \in 1..n |-> <<1, 2, X, <<>>, k * 200, << <<"T", Name(k)>> >>>>]]),
     WithCode([Code(Dups(n)) EXCEPT !.vars = [k \in 1..n |-> <<k - 1, k + 1, X, <<I>>, 0, << <<"T", X>> >>>>], !.lines = <<<<n, 1>>>>]) >>
\* Variables that differ from each other in one respect.
BaseV == <<0, 2, X, <<La>>, 1, << <<"T", X>> >>>>
NearVars == << BaseV, <<0, 2, X, <<La>>, 2, << <<"T", X>> >>>>, <<0, 2, X, <<La>>, 257, << <<"T", X>> >>>>, <<0, 2, A, <<La>>, 1, << <<"T", X>> >>>>, <<0, 3, X, <<La>>, 1, << <<"T", X>> >>>>, <<1, 2, X, <<La>>, 1, << <<"T", X>> >>>>,
               <<0, 2, <<0>>, <<La>>, 1, << <<"T", X>> >>>>, <<0, 2, <<>>, <<La>>, 1, << <<"T", X>> >>>>, <<0, 2, <<55296>>, <<La>>, 1, << <<"T", X>> >>>>, <<0, 2, <<55297>>, <<La>>, 1, << <<"T", X>> >>>>,
               <<2, 2, X, <<La>>, 1, << <<"T", X>> >>>>, <<0, 0, X, <<La>>, 1, << <<"T", X>> >>>> >>
Keep(v, k) == CASE k = 1 -> v [] k = 2 -> [v EXCEPT ![6] = <<>>] [] OTHER -> [v EXCEPT ![4] = <<>>]
RECURSIVE LessText(_, _)
LessText(s, t) == IF t = <<>> THEN FALSE ELSE IF s = <<>> THEN TRUE ELSE IF s[1] # t[1] THEN s[1] < t[1] ELSE LessText(Tail(s), Tail(t))
LessVar(v, w) == IF v[1] # w[1] THEN v[1] < w[1] ELSE IF v[2] # w[2] THEN v[2] < w[2] ELSE IF v[5] # w[5] THEN v[5] < w[5] ELSE LessText(v[3], w[3])
VarPairs == SelectSeq(Pairs(NearVars, NearVars, LAMBDA v, w : <<v, w>>), LAMBDA p : LessVar(p[1], p[2]))
DebugCases == For(Counts, DebugOf)
              \o For(VarPairs, LAMBDA p : Map(<< <<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 2>> >>, LAMBDA k : WithCode([Code(Dups(3)) EXCEPT !.vars = <<Keep(p[1], k[1]), Keep(p[2], k[2])>>])))

(* -- switches ------------------------------------------------------------------------------ *)
Max == 2147483647
SwitchesOf(n) ==
  << WithCode(Code(<< <<"dup">>, <<"tableswitch", 0, -1, [k \in 1..n |-> k % 3]>> >>)), WithCode(Code(<< <<"tableswitch", 2, 0, [k \in 1..n |-> 2 - (k % 3)]>>, <<"dup">> >>)),
     WithCode(Code(<< <<"dup">>, <<"lookupswitch", 0, [k \in 1..n |-> <<k * 1000, k % 3>>]>> >>)), WithCode(Code(<< <<"lookupswitch", 2, [k \in 1..n |-> <<k - 2 * n, k % 3>>]>>, <<"dup">> >>)),
     WithCode(Code(<< <<"if", "eq", 2>>, <<"tableswitch", 0, 2147483647 - n, [k \in 1..n |-> k % 3]>> >>)), WithCode(Code(<< <<"lookupswitch", 2, [k \in 1..n |-> <<k + 2147483647 - n, 0>>]>>, <<"dup">> >>)) >>
SwitchCases == For(Counts \o <<1000>>, SwitchesOf) 
               \o Map(Counts, LAMBDA n : WithCode(Code([k \in 1..n |-> <<"if", "eq", n - k>>]))) \o Map(Counts, LAMBDA n : WithCode(Code([k \in 1..n |-> <<"jsr", (k * 7) % n>>])))
               \o Map(<< <<-Max - 1, Max>>, <<-2000000000, 2000000000>>, <<-Max - 1, 1>>, <<-1, Max>>, <<-Max - 1, -Max>>, <<Max - 1, Max>>, <<-Max - 1, -1, 0, 1, Max>>, <<-Max, -1073741825, 1073741824, Max>> >>, LAMBDA ks :
                      WithCode(Code(<< <<"lookupswitch", 1, [k \in 1..Len(ks) |-> <<ks[k], k % 2>>]>> >>)))
               \o Map(<<-Max - 1, -Max, -1, 0, Max - 1>>, LAMBDA low : WithCode(Code(<< <<"dup">>, <<"tableswitch", 0, low, <<1, 0>>>> >>)))
               \o Map(<<1023, 4100>>, LAMBDA n : WithCode(Code([k \in 1..n |-> <<"if", "ne", n - k>>])))

(* -- raw attributes ------------------------------------------------------------------------- *)
RawOf(name, n) == <<"Raw", <<name, [k \in 1..n |-> (k * 37) % 256]>>>>
InEach(as) == << WithAttrs(as), WithField(as), WithMethod(as), WithCode([Code(<<>>) EXCEPT !.attrs = as]) >>
RawCases == For(<<0, 1, 127, 128, 255, 256, 257, 511, 512, 4096>>, LAMBDA n : InEach(<<RawOf(X, n)>>) \o InEach(<<RawOf(A, 3), RawOf(X, n), RawOf(<<98>>, 2)>>))
            \o Map(<<32767, 32768, 65535, 65536, 65537>>, LAMBDA n : WithAttrs(<<RawOf(X, n)>>))
            \o For(Counts, LAMBDA n : InEach([k \in 1..n |-> RawOf(Name(k), k % 3)]) \o InEach(Copies(n, RawOf(X, 1))))

(* -- texts in each place of a text ------------------------------------------------------------- *)
Texts == << <<>>, <<10>>, <<97, 10>>, <<32>>, <<97, 32>>, <<9, 97, 9>>, <<13, 10>>, <<0>>, <<97, 0>>, <<0, 97>>, <<127>>, <<128>>, <<2047>>, <<2048>>, <<55295>>, <<55296>>, <<57343>>, <<57344>>, <<65279, 97>>, <<65533>>, <<65535>>, <<65536>>, <<1114111>>,
            <<55357, 97>>, <<56832, 55357>>, <<97, 55296>>, <<46>>, <<59>>, <<91>>, <<47>>, <<60>>, <<62>>, <<40, 41>>, <<97, 47, 98>>, <<97, 46, 98>>, <<36>>, <<233>>, <<101, 769>>, <<304>>, <<8232>> >>
         \o Map(<<63, 64, 127, 128, 129, 255, 256, 257, 1024>>, LAMBDA n : Copies(n, 97)) \o Map(<<64, 127, 128>>, LAMBDA n : Copies(n, 233)) \o Map(<<63, 85, 86>>, LAMBDA n : Copies(n, 8364))
\* Each text where any text may stand (as the specification sees it).
TextPlaces(t) ==
  << WithAttrs(<< <<"SourceFile", t>> >>), WithAttrs(<< <<"SourceDebugExtension", t>> >>), WithAttrs(<< <<"SourceFile", t>>, <<"SourceDebugExtension", t>> >>),
     [Empty EXCEPT !.fields = << <<2, t, I, << <<"ConstantValue", <<"string", t>>>> >>>> >>], WithCode(Code(<< <<"push", <<"string", t>>>> >>)),
     WithCode(Code(<< <<"push", <<"string", t>>>>, <<"field", "get", "static", <<"m", A, t, I, 0>>>>, <<"invoke", "static", <<"m", A, t, V0, 0>>>>, <<"invokedynamic", DynC(B0, t, V0)>> >>)),
     [Empty EXCEPT !.methods = << <<9, t, V0, << <<"AnnotationDefault", <<"s", t>>>>, <<"MethodParameters", << <<<<t>>, 0>>, <<<<>>, 0>>, <<<<t>>, 16>> >>>> >>>> >>],
     WithField(<< <<"RuntimeVisibleAnnotations", << <<La, << <<t, <<"e", La, t>>>> >>>> >>>> >>), WithAttrs(<< <<"InnerClasses", << <<A, <<>>, <<t>>, 0>> >>>> >>),
     WithAttrs(<< <<"EnclosingMethod", <<A, << <<t, V0>> >>>>>> >>), WithAttrs(<< <<"Module", <<t, 0, <<t>>, << <<t, 0, <<t>>>> >>, << <<t, 0, <<t>>>> >>, << <<t, 0, <<t>>>> >>, <<>>, <<>>>>>>, <<"ModulePackages", <<t, X>>>> >>),
     WithCode([Code(<<>>) EXCEPT !.vars = << <<0, 1, t, <<I>>, 1, <<>>>> >>]),
     [Empty EXCEPT !.name = t], [Empty EXCEPT !.super = <<t>>], [Empty EXCEPT !.name = t, !.super = <<t>>, !.ifaces = <<t, A, t>>], WithMethod(<< <<"Exceptions", <<t, A>>>> >>),
     WithAttrs(<< <<"InnerClasses", << <<t, <<t>>, <<>>, 8>>, <<A, <<t>>, <<t>>, 0>> >>>>, <<"NestHost", t>>, <<"NestMembers", <<A, t>>>> >>), WithAttrs(<< <<"EnclosingMethod", <<t, <<>>>>>> >>),
     WithAttrs(<< <<"Module", <<A, 0, <<>>, <<>>, <<>>, <<>>, <<t>>, << <<t, <<t>>>> >>>>>>, <<"ModuleMainClass", t>> >>), WithCode(Code(<< <<"push", <<"class", t>>>> >>)),
     WithCode([Code(<< <<"push", <<"string", t>>>>, <<"push", <<"class", t>>>> >>) EXCEPT !.catches = << <<0, 1, 0, <<t>>>> >>]) >>
TextCases == For(Texts, TextPlaces)

Cases == TLCEval(CASE Part = "pool" -> Pool [] Part = "types" -> TypeCases \o ConstCases [] Part = "lists" -> Lists [] Part = "args" -> Args [] Part = "annotations" -> Annotations
                   [] Part = "catches" -> CatchCases [] Part = "debug" -> DebugCases [] Part = "switches" -> SwitchCases [] Part = "raw" -> RawCases [] Part = "texts" -> TextCases)
VARIABLE i
Init == TLCSet(13, Cases) /\ i = 0
Next == i < Len(TLCGet(13)) /\ i' = i + 1
Emit == i = 0 \/ PrintT("CASE " \o ToJson(<<Part, TLCGet(13)[i]>>))
=============================================================================

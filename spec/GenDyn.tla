------------------------------- MODULE GenDyn -------------------------------
(***************************************************************************)
(* Class files with dynamic constants and call sites: every small graph of     *)
(* bootstrap methods and dynamic arguments (shared, nested, circular, outside   *)
(* the table, equal entries), every place of the table among the attributes.     *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS Part           \* "small", "three", "args", "deep", "places"
D(k) == "d" \o ToString(k)              \* key of the dynamic constant that uses bootstrap method k
S(k) == "s" \o ToString(k)              \* of the call site
L(k) == "l" \o ToString(k)              \* of the dynamic long
N(s) == <<s, <<1, NameCps(s)>>>>
DynPool == << U("A"), <<"cA", <<7, "A">>>>, U("B/C"), <<"cB", <<7, "B/C">>>>, U("I"), U("J"), U("()V"), U("x"), U("Foo"), N("Code"), N("BootstrapMethods"), N("SourceFile"),
              <<"ntI", <<12, "x", "I">>>>, <<"ntJ", <<12, "x", "J">>>>, <<"ntV", <<12, "x", "()V">>>>,
              <<"mth", <<10, "cA", "ntV">>>>, <<"imt", <<11, "cA", "ntV">>>>, <<"fld", <<9, "cA", "ntI">>>>,
              <<"hdl", <<15, 6, "mth">>>>, <<"hdi", <<15, 6, "imt">>>>, <<"hdf", <<15, 2, "fld">>>>, <<"hd0", <<15, 0, "mth">>>>,
              <<"int", <<3, <<0, 0, 0, 7>>>>>>, <<"lng", <<5, <<0, 0, 0, 0, 0, 0, 0, 7>>>>>>, <<"str", <<8, "x">>>>, <<"mty", <<16, "()V">>>>,
              <<"nan", <<4, <<127, 192, 0, 1>>>>>> >>
           \o [k \in 1..90 |-> <<D(k - 1), <<17, k - 1, "ntI">>>>] \o [k \in 1..8 |-> <<S(k - 1), <<18, k - 1, "ntV">>>>] \o [k \in 1..4 |-> <<L(k - 1), <<17, k - 1, "ntJ">>>>]
           \o << <<"dMax", <<17, 65535, "ntI">>>>, <<"dBad", <<17, 0, "int">>>> >>
(* -- code that pushes dynamic constants and calls sites ------------------------ *)
Use(k) == IF k[1] = "s" THEN <<186>> \o K(k[2]) \o <<0, 0>> ELSE IF k[1] = "l" THEN <<20>> \o K(k[2]) ELSE <<19>> \o K(k[2])
Uses(ks) == Cat(Map(ks, Use)) \o <<177>>
UD(k) == <<"d", D(k)>>
US(k) == <<"s", S(k)>>
UL(k) == <<"l", L(k)>>
Bsm(h, as) == K(h) \o B2(Len(as)) \o Cat(Map(as, LAMBDA a : IF a = "0" THEN B2(0) ELSE IF a = "end" THEN B2(PoolCount) ELSE K(a)))
Table(bs) == Attr("BootstrapMethods", List2(bs))
With(uses, attrs) == Class(33, <<>>, <<Method(<<Attr("Code", Code(Uses(uses), <<>>, <<>>))>>)>>, attrs)
Using(uses, bs) == With(uses, <<Table(bs)>>)

Lists1(xs) == << <<>> >> \o Map(xs, LAMBDA x : <<x>>)
Lists2(xs) == Lists1(xs) \o Cat(Map(xs, LAMBDA x : Map(xs, LAMBDA y : <<x, y>>)))
Some == <<"int", D(0), D(1), D(2)>>
(* Two methods with up to two arguments each.                                     *)
Small == Cat(Map(Lists2(<<"int", "lng", D(0), D(1), D(2)>>), LAMBDA a : Map(Lists2(<<"int", D(0), D(1), "nan">>), LAMBDA b :
            Using(<<UD(0), UD(1), US(1), UL(0)>>, <<Bsm("hdl", a), Bsm("hdl", b)>>))))
(* Three methods with up to one argument each; which of them are used.             *)
Three == Cat(Map(<< <<UD(0), UD(1), UD(2)>>, <<US(2), UL(1), UD(0), US(0)>>, <<UD(2)>>, <<>> >>, LAMBDA u :
           Cat(Map(Lists1(Some), LAMBDA a : Cat(Map(Lists1(Some), LAMBDA b : Map(Lists1(Some), LAMBDA c :
             Using(u, <<Bsm("hdl", a), Bsm("hdl", b), Bsm("hdi", c)>>))))))))
(* Every argument index; every handle.                                              *)
AllKeys == [i \in 1..Len(PoolDef) |-> PoolDef[i][1]]
Args1 == Map(AllKeys \o <<"0", "end">>, LAMBDA a : Using(<<UD(0)>>, <<Bsm("hdl", <<a>>), Bsm("hdl", <<>>)>>))
         \o Map(AllKeys, LAMBDA h : Using(<<UD(0)>>, <<Bsm(h, <<>>), Bsm("hdl", <<>>)>>))
         \o Map(AllKeys, LAMBDA a : Using(<< <<"d", a>> >>, <<Bsm("hdl", <<>>), Bsm("hdl", <<D(0)>>)>>))
         \o Map(AllKeys, LAMBDA a : Using(<< <<"l", a>> >>, <<Bsm("hdl", <<>>), Bsm("hdl", <<D(0)>>)>>))
         \o Map(AllKeys, LAMBDA a : Using(<< <<"s", a>> >>, <<Bsm("hdl", <<>>), Bsm("hdl", <<D(0)>>)>>))
(* Chains, rings, ladders (two arguments that are the same), long tables.            *)
Chain(n, last) == [k \in 1..n |-> Bsm("hdl", IF k = n THEN last ELSE <<D(k)>>)]
Back(n) == [k \in 1..n |-> Bsm("hdl", IF k = 1 THEN <<>> ELSE <<D(k - 2)>>)]
Deep == Cat(Map(<<1, 2, 3, 4, 10, 25>>, LAMBDA n :
          << Using(<<UD(0)>>, Chain(n, <<>>)), Using(<<UD(0), UD(n - 1)>>, Chain(n, <<"int">>)), Using(<<UD(n - 1)>>, Back(n)), Using(<<UD(0)>>, Back(n)),
             Using(<<UD(0)>>, Chain(n, <<D(0)>>)), Using(<<>>, Chain(n, <<D(n - 1)>>)), Using(<<UD(0)>>, Chain(n, <<D(n)>>)), Using(<<UD(n)>>, Chain(n, <<>>)) >>))
        \o Map(<<1, 2, 3, 4>>, LAMBDA n : Using(<<UD(0)>>, [k \in 1..(n + 1) |-> Bsm("hdl", IF k = n + 1 THEN <<>> ELSE <<D(k), D(k)>>)]))
        \o Map(<<2, 3, 40>>, LAMBDA n : Using([k \in 1..n |-> UD(n - k)], [k \in 1..n |-> Bsm("hdl", <<>>)]))
        \o Map(<<2, 3, 40>>, LAMBDA n : Using([k \in 1..n |-> UD(k - 1)], [k \in 1..n |-> Bsm("hdl", [j \in 1..k |-> "int"])]))
(* Where the table is, and that it is.                                               *)
T1 == Table(<<Bsm("hdl", <<"str">>), Bsm("hdf", <<D(0)>>)>>)
T2 == Table(<<Bsm("hdi", <<>>)>>)
Foo == Attr("Foo", <<1>>)
Src == Attr("SourceFile", K("x"))
Places == Cat(Map(<< <<UD(1), US(0)>>, <<>>, <<UD(0)>>, <<US(1)>>, <<UD(3)>> >>, LAMBDA u :
            Map(<< <<>>, <<T1>>, <<Foo, T1>>, <<T1, Foo>>, <<Src, T1, Foo>>, <<T1, T2>>, <<T2, T1>>, <<T2>>, <<Table(<<>>)>>, <<Foo>>, <<T1, T1>>, <<Table(<<>>), T1>> >>, LAMBDA as : With(u, as))))
          \o Map(<< <<T1>>, <<>> >>, LAMBDA as : Class(33, <<Field(<<Attr("BootstrapMethods", <<0, 0>>)>>)>>, <<>>, as))
Cases == TLCEval(LET b == CASE Part = "small" -> Small [] Part = "three" -> Three [] Part = "args" -> Args1 [] Part = "deep" -> Deep [] Part = "places" -> Places IN
                 Map(b, LAMBDA x : <<Part, x>>))
VARIABLE i
Init == SetupPool(DynPool, <<>>) /\ SetupPool(DynPool, Cases) /\ i = 0
Next == i < NCases /\ i' = i + 1
Emit == i = 0 \/ PrintT("CASE " \o ToJson(Case(i)))
=============================================================================

----------------------------- MODULE GenDynVals -----------------------------
(***************************************************************************)
(* Classes, as values, whose code uses dynamic constants and call sites, with   *)
(* and without explicit bootstrap tables: every small combination.               *)
(***************************************************************************)
EXTENDS GenLib, Json
CONSTANTS Part             \* "tables", "uses", "three", "near"
A == <<65>>
V0 == <<"(", <<>>, <<>>>>
Hnd(k, itf) == <<"h", k, <<"m", A, A, V0, itf>>>>
Num(n) == <<"int", <<0, 0, 0, n>>>>
Bsm(h, as) == <<h, as>>
DynC(b, n, t) == <<"dyn", b, n, t>>
I == <<"I">>
J == <<"J">>
B0 == Bsm(Hnd(6, 0), <<>>)
B1 == Bsm(Hnd(6, 0), <<Num(0)>>)
B2_ == Bsm(Hnd(6, 0), <<DynC(B0, A, I)>>)
B3 == Bsm(Hnd(6, 1), <<>>)
B4_ == Bsm(Hnd(6, 0), <<DynC(B2_, A, I), Num(0), DynC(B0, A, J)>>)
B5 == Bsm(Hnd(6, 0), << <<"float", <<0, 0, 0, 0>>>> >>)
B6 == Bsm(Hnd(6, 0), << <<"float", <<128, 0, 0, 0>>>> >>)
B7 == Bsm(Hnd(8, 0), <<DynC(B4_, A, I), DynC(B4_, A, I), DynC(B4_, <<66>>, I)>>)
Bs == <<B0, B1, B2_, B3, B4_, B5, B6, B7>>
Push(b) == <<"push", DynC(b, A, I)>>
PushJ(b) == <<"push", DynC(b, A, J)>>
Call(b) == <<"invokedynamic", DynC(b, A, V0)>>
UsesAll == For(Bs, LAMBDA b : <<Push(b), PushJ(b), Call(b)>>)
Class(uses, attrs) ==
  [minor |-> 0, major |-> 55, access |-> 33, name |-> A, super |-> <<A>>, ifaces |-> <<>>, fields |-> <<>>,
   methods |-> << <<9, <<109>>, V0, << <<"Code", [stack |-> 1, locals |-> 2, n |-> Len(uses) + 1, ops |-> Append(uses, <<"return", "V">>),
                                                  catches |-> <<>>, lines |-> <<>>, vars |-> <<>>, attrs |-> <<>>]>> >>>> >>,
   attrs |-> attrs]
Table(bs) == <<"BootstrapMethods", bs>>
Few == <<B0, B1, B2_, B4_>>
FewUses == << <<>>, <<Push(B0)>>, <<Call(B2_)>>, <<Push(B4_), Call(B0)>>, <<Push(B1), Push(B2_)>>, <<PushJ(B4_)>>, <<Call(B3), Push(B2_)>> >>
Tables == << <<>> >> \o Map(WordsUpto(Few, 3), LAMBDA bs : <<Table(bs)>>) \o Pairs(WordsUpto(SubSeq(Few, 1, 3), 1), WordsUpto(SubSeq(Few, 2, 4), 1), LAMBDA x, y : <<Table(x), Table(y)>>)
          \o << <<Table(<<B0>>), <<"SourceFile", A>>, Table(<<B4_, B0>>)>>, << <<"SourceFile", A>>, Table(Bs)>>, <<Table(<<B7>>), <<"Deprecated", <<>> >>>> >>
(* -- bootstrap methods which differ from one another in a single respect --------- *)
MemberH(k, o, n, t, itf) == <<"h", k, <<"m", o, n, t, itf>>>>
NearHandles == << MemberH(6, A, A, V0, 0), MemberH(5, A, A, V0, 0), MemberH(9, A, A, V0, 1), MemberH(6, A, A, V0, 1), MemberH(6, <<66>>, A, V0, 0), MemberH(6, A, <<66>>, V0, 0),
                  MemberH(6, A, A, <<"(", <<I>>, <<>>>>, 0), MemberH(6, A, A, <<"(", <<>>, <<I>>>>, 0), MemberH(6, A, A, <<"(", <<J>>, <<>>>>, 0),
                  MemberH(1, A, A, I, 0), MemberH(2, A, A, I, 0), MemberH(3, A, A, I, 0), MemberH(4, A, A, I, 0), MemberH(2, A, A, J, 0),
                  MemberH(6, <<55296>>, A, V0, 0), MemberH(6, <<55297>>, A, V0, 0), MemberH(6, <<65533>>, A, V0, 0), MemberH(6, A, <<55296>>, V0, 0), MemberH(6, A, <<57343>>, V0, 0),
                  MemberH(6, A, A, <<"(", << <<"L", <<55296>>>> >>, <<>>>>, 0), MemberH(6, A, A, <<"(", << <<"L", <<55297>>>> >>, <<>>>>, 0) >>
Z4 == <<0, 0, 0, 0>>
NaN4(x) == <<127, 192, 0, x>>
HC(h) == <<"handle", h[2], h[3]>>
NearArgs == << <<"int", Z4>>, <<"float", Z4>>, <<"float", <<128, 0, 0, 0>>>>, <<"float", NaN4(0)>>, <<"float", NaN4(1)>>, <<"float", <<255, 192, 0, 0>>>>,
               <<"long", Z4 \o Z4>>, <<"double", Z4 \o Z4>>, <<"double", <<128, 0, 0, 0>> \o Z4>>, <<"double", <<127, 248, 0, 0>> \o Z4>>, <<"double", <<127, 248, 0, 0, 0, 0, 0, 1>>>>,
               <<"string", A>>, <<"class", A>>, <<"string", <<66>>>>, <<"class", <<66>>>>, <<"mtype", V0>>, <<"mtype", <<"(", <<I>>, <<>>>>>>,
               HC(NearHandles[1]), HC(NearHandles[2]), HC(NearHandles[4]), HC(NearHandles[5]), HC(NearHandles[6]), HC(NearHandles[7]),
               DynC(B0, A, I), DynC(B0, A, J), DynC(B0, <<66>>, I), DynC(B1, A, I), DynC(B3, A, I), DynC(B0, A, <<"L", A>>), DynC(B0, A, <<"[", 1, I>>), DynC(B0, A, <<"[", 2, I>>),
               DynC(B0, <<55296>>, I), DynC(B0, <<55297>>, I), DynC(B0, A, <<"L", <<55296>>>>), DynC(B0, A, <<"L", <<55297>>>>), DynC(B0, A, <<"L", <<65533>>>>),
               <<"string", <<55296>>>>, <<"string", <<55297>>>>, <<"class", <<55296>>>>, <<"class", <<57343>>>>, <<"mtype", <<"(", <<>>, << <<"L", <<55296>>>> >>>>>>, <<"mtype", <<"(", <<>>, << <<"L", <<55297>>>> >>>>>> >>
Near == Map(NearHandles, LAMBDA h : Bsm(h, <<>>)) \o Map(NearArgs, LAMBDA a : Bsm(Hnd(6, 0), <<a>>))
     \o << Bsm(Hnd(6, 0), <<Num(0), Num(1)>>), Bsm(Hnd(6, 0), <<Num(1), Num(0)>>), Bsm(Hnd(6, 0), <<Num(0), Num(0)>>) >>
\* A method that uses two of them.
NearUse(x, y) == <<Push(x), Call(y)>>
Cases == TLCEval(CASE Part = "tables" -> Pairs(Tables, FewUses, LAMBDA t, u : Class(u, t))
                   [] Part = "uses" -> Map(WordsUpto(UsesAll, 2), LAMBDA u : Class(u, <<>>))
                   [] Part = "three" -> Map(Words([k \in 1..8 |-> UsesAll[3 * k - 2]], 3), LAMBDA u : Class(u, <<>>))
                   [] Part = "near" -> Pairs(Near, Near, LAMBDA x, y : Class(NearUse(x, y), <<>>)))
VARIABLE i
Init == TLCSet(13, Cases) /\ i = 0
Next == i < Len(TLCGet(13)) /\ i' = i + 1
Emit == i = 0 \/ PrintT("CASE " \o ToJson(<<Part, TLCGet(13)[i]>>))
=============================================================================

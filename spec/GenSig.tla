------------------------------- MODULE GenSig -------------------------------
(***************************************************************************)
(* Descriptors and signatures from their grammar: values of every form, and   *)
(* all single edits of the printed forms of some.  Checked on the way: every   *)
(* value is what its printed form denotes.                                     *)
(***************************************************************************)
EXTENDS Signature, GenLib, Json
CONSTANTS Part            \* "desc", "descedits", "sig", "sigedits"
Name(i) == CASE i = 1 -> <<65>> [] i = 2 -> <<84>> [] i = 3 -> <<76, 76>> [] i = 4 -> <<233, 128512>> [] i = 5 -> <<97, 47, 66>>
             [] i = 6 -> <<0, 55296, 97, 57343>> [] i = 7 -> <<86, 40, 41, 73>> [] i = 8 -> <<36, 45, 62, 60, 58>>
A == Name(1)
Prims == Map(<<"B", "C", "D", "F", "I", "J", "S", "Z">>, LAMBDA p : <<p>>)
(* -- descriptors -- *)
Refs == Map(<<1, 2, 3, 4, 5, 6, 7, 8>>, LAMBDA i : <<"L", Name(i)>>)
Bases == Prims \o Refs
Dims == <<1, 2, 3, 127, 128, 254, 255>>
Arrays == Pairs(Dims, Bases, LAMBDA d, t : <<"[", d, t>>)
Some == << <<"I">>, <<"J">>, <<"L", Name(5)>>, <<"L", Name(7)>>, <<"[", 1, <<"D">>>>, <<"[", 2, <<"L", Name(4)>>>>, <<"[", 255, <<"Z">>>> >>
Results == << <<>> >> \o Map(Bases \o SubSeq(Arrays, 1, 30), LAMBDA t : <<t>>)
Methods == Map(Results, LAMBDA r : <<"(", <<>>, r>>)
           \o Map(Bases \o Arrays, LAMBDA t : <<"(", <<t>>, <<>>>>)
           \o Pairs(Words(Some, 2), << <<>>, << <<"J">> >>, << <<"L", Name(5)>> >> >>, LAMBDA w, r : <<"(", w, r>>)
           \o Map(Words(SubSeq(Some, 1, 5), 3), LAMBDA w : <<"(", w, <<>>>>)
           \o << <<"(", [i \in 1..255 |-> <<"I">>], <<>>>>, <<"(", [i \in 1..300 |-> Some[(i % 5) + 1]], << <<"S">> >>>> >>
Descs == Bases \o Arrays \o Methods
DescChars == <<66, 73, 76, 86, 91, 40, 41, 59, 47, 97, 0, 57343>>
DescSeeds == Map(<< <<"I">>, <<"L", Name(5)>>, <<"L", Name(4)>>, <<"[", 1, <<"J">>>>, <<"[", 3, <<"L", A>>>>, <<"[", 255, <<"I">>>>, <<"[", 255, <<"L", A>>>> >>, PrintDesc)
             \o Map(<< <<"(", <<>>, <<>>>>, <<"(", << <<"I">> >>, << <<"J">> >>>>, <<"(", << <<"[", 2, <<"L", A>>>>, <<"Z">> >>, << <<"L", Name(5)>> >>>>,
                       <<"(", << <<"L", A>>, <<"[", 1, <<"B">>>> >>, << <<"[", 1, <<"I">>>> >>>>, <<"(", << <<"[", 255, <<"I">>>> >>, <<>>>>,
                       <<"(", <<>>, << <<"[", 255, <<"I">>>> >>>> >>, PrintDesc)
Long == Pairs(<<254, 255, 256, 257, 511, 512, 1000>>,
              << <<73>>, <<76, 65, 59>>, <<>>, <<76, 65>>, <<86>>, <<40, 41, 86>> >>, LAMBDA d, t : Repeat(91, d) \o t)
LongDescs == Long \o Map(Long, LAMBDA s : <<40>> \o s \o <<41, 86>>) \o Map(Long, LAMBDA s : <<40, 41>> \o s)
EachChar == For(Upto(0, 130) \o <<255, 256, 2047, 55295, 57344, 65535, 65536, 1114111>>, LAMBDA x :
               << <<x>>, <<91, x>>, <<40, x, 41, 86>>, <<40, 41, x>>, <<73, x>>, <<76, 65, 59, x>>, <<40, 41, 86, x>>, <<76, 65, x, 66, 59>>, <<x, 73>> >>)
(* -- signatures -- *)
T(n) == <<"T", n>>
L0(n) == <<"L", <<>>, <<n, <<>>>>, <<>>>>
R0 == << T(A), L0(A), <<"[", 1, <<"I">>>>, <<"[", 2, T(Name(2))>>, T(Name(4)), L0(Name(3)) >>
ArgsOf(R) == << <<"*">> >> \o Pairs(<<"+", "-", "=">>, R, LAMBDA k, r : <<k, r>>)
ArgLists == << <<>> >> \o Map(ArgsOf(R0), LAMBDA a : <<a>>) \o Map(Words(<< <<"*">>, <<"=", T(A)>>, <<"+", L0(A)>>, <<"-", <<"[", 1, <<"I">>>>>> >>, 2), LAMBDA w : w)
            \o << << <<"=", T(A)>>, <<"*">>, <<"=", L0(A)>> >> >>
Pkgs == << <<>>, << <<97>> >>, << <<97>>, <<233>>, Name(2) >> >>
Sufs == << <<>>, << <<A, <<>>>> >>, << <<A, << <<"*">> >>>> >>, << <<Name(2), <<>>>>, <<A, << <<"=", T(A)>>, <<"+", L0(A)>> >>>> >>, << <<Name(3), << <<"*">> >>>>, <<A, <<>>>> >> >>
Classes1 == Triples(Pkgs, ArgLists, Sufs, LAMBDA p, a, x : <<"L", p, <<A, a>>, x>>)
SomeClasses == [i \in 1..12 |-> Classes1[((i * 37) % Len(Classes1)) + 1]]
Classes2 == Pairs(<<"+", "-", "=">>, SomeClasses, LAMBDA k, r : <<"L", <<>>, <<A, << <<k, r>>, <<"*">> >>>>, <<>>>>)
SigArrays == Pairs(<<1, 2, 254, 255>>, Prims \o R0 \o SubSeq(SomeClasses, 1, 4), LAMBDA d, t : IF t[1] = "[" THEN <<"[", t[2] + 1, t[3]>> ELSE <<"[", d, t>>)
FieldSigs == R0 \o Classes1 \o Classes2 \o SigArrays
FewRefs == << T(A), L0(A), SomeClasses[3], SomeClasses[5], <<"[", 1, T(A)>> >>
FewClasses == << L0(A), SomeClasses[3], SomeClasses[7] >>
IfaceBounds == << <<>> >> \o Map(FewRefs, LAMBDA r : <<r>>) \o Words(SubSeq(FewRefs, 1, 2), 2)
Params1 == Triples(<<A, Name(2), Name(3), Name(4)>>, << <<>> >> \o Map(FewRefs, LAMBDA r : <<r>>), IfaceBounds, LAMBDA n, c, i : <<n, c, i>>)
FewParams == [i \in 1..14 |-> Params1[((i * 23) % Len(Params1)) + 1]]
ParamLists == << <<>> >> \o Map(FewParams, LAMBDA p : <<p>>) \o Words(FewParams, 2)
Sups == Words(FewClasses, 1) \o Words(FewClasses, 2) \o Words(SubSeq(FewClasses, 1, 2), 3)
ClassSs == Map(Sups, LAMBDA s : <<<<>>, s[1], Tail(s)>>) \o Map(ParamLists \o Map(Params1, LAMBDA p : <<p>>), LAMBDA p : <<p, L0(A), <<>>>>)
           \o Pairs(SubSeq(ParamLists, 2, 15), Sups, LAMBDA p, s : <<p, s[1], Tail(s)>>)
FewTypes == FewRefs \o << <<"I">>, <<"J">>, <<"[", 2, <<"B">>>> >>
ThrowLists == << <<>> >> \o Words(<< T(A), L0(A), SomeClasses[5] >>, 1) \o Words(<< T(A), L0(A), SomeClasses[5] >>, 2) \o << << T(A), T(Name(4)), L0(Name(3)) >> >>
MethodSs == Pairs(WordsUpto(FewTypes, 2), << <<>>, << <<"Z">> >>, <<T(A)>> >>, LAMBDA a, r : <<<<>>, a, r, <<>>>>)
            \o Pairs(<< <<>> >> \o Map(FewTypes \o Prims, LAMBDA t : <<t>>), ThrowLists, LAMBDA r, t : <<<<>>, <<>>, r, t>>)
            \o Triples(SubSeq(ParamLists, 2, 30), << <<>>, << <<"I">>, T(A) >> >>, SubSeq(ThrowLists, 1, 5), LAMBDA p, a, t : <<p, a, <<>>, t>>)
Vals == Map(FieldSigs, LAMBDA v : <<"fsig", v>>) \o Map(FieldSigs, LAMBDA v : <<"ref", v>>) \o Map(Prims \o R0 \o SigArrays, LAMBDA v : <<"type", v>>)
        \o Map(Classes1, LAMBDA v : <<"ctype", v>>) \o Pairs(<<A, Name(3), Name(4)>>, ArgLists, LAMBDA n, a : <<"simple", <<n, a>>>>)
        \o Map(Params1, LAMBDA v : <<"tparam", v>>) \o Map(SelectSeq(R0, LAMBDA r : r[1] # "[") \o Classes1, LAMBDA v : <<"throws", v>>)
        \o Map(ClassSs, LAMBDA v : <<"csig", v>>) \o Map(MethodSs, LAMBDA v : <<"msig", v>>)
SigChars == <<65, 73, 76, 84, 86, 59, 58, 60, 62, 91, 46, 47, 42, 43, 45, 94, 40, 41>>
SigSeeds == << <<"fsig", T(A)>>, <<"fsig", L0(A)>>, <<"fsig", <<"[", 2, <<"I">>>>>>, <<"fsig", Classes1[60]>>, <<"fsig", Classes1[Len(Classes1)]>>, <<"fsig", Classes1[150]>>,
               <<"fsig", <<"L", << <<97>> >>, <<A, << <<"+", T(A)>>, <<"*">>, <<"=", <<"[", 1, <<"J">>>>>> >>>>, << <<A, << <<"-", L0(A)>> >>>> >>>>>>,
               <<"type", <<"I">>>>, <<"ctype", Classes1[31]>>, <<"simple", <<A, << <<"*">>, <<"+", T(A)>> >>>>>>, <<"throws", T(A)>>, <<"throws", Classes1[5]>>,
               <<"tparam", <<A, <<>>, <<>>>>>>, <<"tparam", <<A, <<L0(A)>>, <<T(A), L0(A)>>>>>>, <<"tparam", <<Name(2), <<T(A)>>, <<>>>>>>,
               <<"csig", <<<<>>, L0(A), <<>>>>>>, <<"csig", <<<< <<A, <<>>, <<L0(A)>>>>, <<Name(2), <<T(A)>>, <<>>>> >>, L0(A), <<Classes1[31]>>>>>>,
               <<"csig", <<<< <<Name(3), <<>>, <<>>>>, <<Name(2), <<>>, <<T(A), T(A)>>>> >>, L0(A), <<>>>>>>,
               <<"msig", <<<<>>, <<>>, <<>>, <<>>>>>>, <<"msig", <<<< <<A, <<L0(A)>>, <<>>>> >>, << <<"I">>, T(A) >>, << T(A) >>, <<T(A), L0(A)>>>>>>,
               <<"msig", <<<<>>, << <<"[", 1, <<"J">>>>, L0(A) >>, << <<"[", 1, T(A)>> >>, <<L0(A)>>>>>> >>
Deep(n) == Joined([i \in 1..n |-> <<76, 65, 60>>]) \o <<42>> \o Joined([i \in 1..n |-> <<62, 59>>])
LongSigs == For(<<254, 255, 256, 257, 1000>>, LAMBDA d : Map(<< <<73>>, <<76, 65, 59>>, <<84, 65, 59>>, <<>> >>, LAMBDA t : <<"fsig", Repeat(91, d) \o t>>)
                 \o << <<"msig", <<40>> \o Repeat(91, d) \o <<73, 41, 86>>>>, <<"csig", <<60, 65, 58>> \o Repeat(91, d) \o <<73, 62, 76, 65, 59>>>>, <<"type", Repeat(91, d) \o <<73>>>> >>)
            \o For(<<1, 2, 10, 50>>, LAMBDA n : << <<"fsig", Deep(n)>>, <<"csig", Deep(n)>>, <<"msig", <<40>> \o Deep(n) \o <<41>> \o Deep(n)>>, <<"fsig", Deep(n) \o <<59>>>> >>)

Cases == TLCEval(
  CASE Part = "desc" -> Map(Descs, LAMBDA v : <<"print", "desc", v>>) \o Map(LongDescs \o EachChar, LAMBDA s : <<"parse", "desc", s>>)
    [] Part = "descedits" -> For(DescSeeds, LAMBDA s : Map(Edits(s, IF Len(s) > 100 THEN <<66, 91, 59>> ELSE DescChars), LAMBDA x : <<"parse", "desc", x>>))
    [] Part = "sig" -> Map(Vals, LAMBDA v : <<"print", v[1], v[2]>>) \o Map(LongSigs, LAMBDA v : <<"parse", v[1], v[2]>>)
    [] Part = "sigedits" -> For(SigSeeds, LAMBDA v : Map(Edits(PrintSig(v[1], v[2]), SigChars), LAMBDA x : <<"parse", v[1], x>>)))
VARIABLE i
Init == TLCSet(13, Cases) /\ i = 0
Next == i < Len(TLCGet(13)) /\ i' = i + 1
Case == TLCGet(13)[i]
Sound == i = 0 \/ Case[1] = "parse"
         \/ LET d == IF Case[2] = "desc" THEN Desc(PrintDesc(Case[3])) ELSE Sig(Case[2], PrintSig(Case[2], Case[3])) IN
            d[1] = -1 \/ d = <<1, Case[3]>>
Emit == i = 0 \/ PrintT("CASE " \o ToJson(Case))
=============================================================================

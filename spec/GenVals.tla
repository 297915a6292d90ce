------------------------------- MODULE GenVals -------------------------------
(***************************************************************************)
(* Method handles, stack-map frames, constant pools and floats, enumerated.     *)
(***************************************************************************)
EXTENDS GenLib, Text, Json
CONSTANTS Part            \* "handles", "frames", "frame-bytes", "pools", "floats"
B2(n) == <<n \div 256, n % 256>>
A == <<65>>

---------------------------------------------------------------------------
(* A pool with every kind of entry.  References are positions in Source.        *)
Source == << <<1, A>>, <<7, 1>>, <<1, <<120>>>>, <<1, <<73>>>>, <<1, <<40, 41, 86>>>>, <<12, 3, 4>>, <<12, 3, 5>>,
             <<9, 2, 6>>, <<10, 2, 7>>, <<11, 2, 7>>, <<3, <<18, 52, 86, 120>>>>, <<5, <<128, 0, 0, 0, 0, 0, 0, 1>>>>, <<4, <<127, 192, 0, 1>>>>,
             <<6, <<128, 0, 0, 0, 0, 0, 0, 0>>>>, <<8, 3>>, <<16, 5>>, <<15, 6, 9>>, <<17, 0, 6>>, <<18, 1, 7>>, <<19, 3>>, <<20, 1>>,
             <<15, 4, 8>>, <<1, <<0, 97, 55296, 128512, 57343, 2048>>>>, <<7, 23>>, <<15, 9, 10>>, <<8, 23>> >>
N == Len(Source)
Width(e) == IF e[1] \in {5, 6} THEN 2 ELSE 1
(* Which parts of an entry are references.                                      *)
RefSlots(e) == CASE e[1] \in {7, 8, 16, 19, 20} -> <<2>> [] e[1] \in {9, 10, 11, 12} -> <<2, 3>> [] e[1] \in {15, 17, 18} -> <<3>> [] OTHER -> <<>>
NumSlots(e) == CASE e[1] \in {15, 17, 18} -> <<2>> [] OTHER -> <<>>
(* order: a permutation of the positions.  Indices of the positions.            *)
IndexIn(order) ==
  LET at == Fold(LAMBDA acc, k : Append(acc, acc[Len(acc)] + Width(Source[order[k]])), <<1>>, Numbers(Len(order))) IN
  TLCEval([p \in 1..N |-> at[CHOOSE k \in 1..Len(order) : order[k] = p]])
Count(order) == Fold(LAMBDA n, k : n + Width(Source[order[k]]), 1, Numbers(Len(order)))
(* An entry with its references as indices.                                     *)
Resolved(e, ix) == [k \in 1..Len(e) |-> IF \E j \in 1..Len(RefSlots(e)) : RefSlots(e)[j] = k THEN ix[e[k]] ELSE e[k]]
Enc(e) == CASE e[1] = 1 -> LET m == EncM(e[2]) IN <<1>> \o B2(Len(m)) \o m
            [] e[1] \in 3..6 -> <<e[1]>> \o e[2]
            [] e[1] \in {7, 8, 16, 19, 20} -> <<e[1]>> \o B2(e[2])
            [] e[1] = 15 -> <<15, e[2]>> \o B2(e[3])
            [] OTHER -> <<e[1]>> \o B2(e[2]) \o B2(e[3])
Ident == Numbers(N)
Base == TLCEval(LET ix == IndexIn(Ident) IN Map(Source, LAMBDA e : Resolved(e, ix)))
Pool(es) == B2(Count(Ident)) \o Joined(Map(es, Enc))
BasePool == Pool(Base)
Ordered(order) == LET ix == IndexIn(order) IN B2(Count(order)) \o Joined([k \in 1..N |-> Enc(Resolved(Source[order[k]], ix))])
Orders == << [k \in 1..N |-> N + 1 - k] >> \o Map(Upto(1, N - 1), LAMBDA d : [k \in 1..N |-> ((k + d - 1) % N) + 1])
          \o Map(Upto(1, 12), LAMBDA m : [k \in 1..N |-> IF k <= m THEN m + 1 - k ELSE k])
Targets == Upto(0, Count(Ident) + 1) \o <<255, 256, 257, 65535>>
Redirected == For(Numbers(N), LAMBDA p : For(RefSlots(Base[p]), LAMBDA s : Map(Targets, LAMBDA t : Pool([Base EXCEPT ![p][s] = t]))))
              \o For(Numbers(N), LAMBDA p : For(NumSlots(Base[p]), LAMBDA s :
                     Map(IF Base[p][1] = 15 THEN Upto(0, 255) ELSE <<0, 1, 2, 255, 256, 65535>>, LAMBDA t : Pool([Base EXCEPT ![p][s] = t]))))
(* Two references changed at once: in a member and its name-and-type.           *)
Twice == For(<<3, 4, 5, 11, 12>>, LAMBDA t : For(<<3, 4, 5, 11, 23>>, LAMBDA u : << Pool([Base EXCEPT ![6][2] = t, ![6][3] = u]), Pool([Base EXCEPT ![8][2] = t, ![6][3] = u]) >>))
Retagged == For(Numbers(N), LAMBDA p : LET pre == Joined([k \in 1..(p - 1) |-> Enc(Base[k])])
                                           post == Joined([k \in 1..(N - p) |-> Enc(Base[p + k])])
                                           e == Enc(Base[p]) IN
              Map(Upto(0, 21) \o <<127, 128, 255>>, LAMBDA t : B2(Count(Ident)) \o pre \o <<t>> \o Tail(e) \o post))
Cut == Map(Upto(0, Len(BasePool) - 1), LAMBDA n : SubSeq(BasePool, 1, n))
Counted == Map(Upto(0, Count(Ident) + 2) \o <<255, 256, 65535>>, LAMBDA n : B2(n) \o SubSeq(BasePool, 3, Len(BasePool)))
(* Small pools: a wide entry last, first, alone; a pool of none.                 *)
Small == Map(<< <<>>, <<Base[12]>>, <<Base[14]>>, <<Base[11], Base[12]>>, <<Base[12], Base[11]>>, <<Base[12], Base[14]>>, <<Base[1], Base[14], Base[1]>> >>, LAMBDA es :
               LET w == Fold(LAMBDA n, e : n + Width(e), 1, es)
                   b == Joined(Map(es, Enc)) IN << B2(w) \o b, B2(w - 1) \o b, B2(w + 1) \o b >>)
(* Text entries: every length and malformed contents.                            *)
Texts == Map(<< <<>>, <<0>>, <<192, 128>>, <<128>>, <<193, 191>>, <<194, 128>>, <<223, 191>>, <<224, 159, 191>>, <<224, 160, 128>>, <<237, 160, 128>>, <<237, 191, 191>>,
                <<237, 160, 189, 237, 184, 128>>, <<237, 184, 128, 237, 160, 189>>, <<239, 191, 191>>, <<240, 144, 128, 128>>, <<194>>, <<225, 128>>, <<255>>, <<65, 194>>, <<194, 65>>, <<225, 128, 65>> >>,
             LAMBDA b : B2(3) \o <<1>> \o B2(Len(b)) \o b \o <<7, 0, 1>>)
Pools == <<BasePool>> \o Map(Orders, Ordered) \o Redirected \o Twice \o Retagged \o Cut \o Counted \o For(Small, LAMBDA x : x) \o Texts

---------------------------------------------------------------------------
Init_ == <<60, 105, 110, 105, 116, 62>>
Clinit_ == <<60, 99, 108, 105, 110, 105, 116, 62>>
Names == << Init_, Clinit_, <<120>>, SubSeq(Init_, 1, 5), SubSeq(Init_, 2, 6), SubSeq(Init_, 2, 5), Append(Init_, 120), <<120>> \o Init_, SubSeq(Clinit_, 1, 7),
            Append(Clinit_, 62), <<60>> \o Clinit_, <<60, 73, 110, 105, 116, 62>>, <<60, 105, 110, 105, 116, 0, 62>>, <<>>, <<60, 62>>, <<60, 105, 110, 116, 62>>,
            Append(Init_, 0), <<60, 99, 108, 105, 110, 105, 84, 62>>, <<55296>>, <<233, 128512>> >>
V0 == <<"(", <<>>, <<>>>>
Fields == << <<"I">>, <<"L", A>>, <<"[", 1, <<"J">>>>, <<"Z">> >>
Meths == << V0, <<"(", << <<"I">>, <<"L", A>> >>, << <<"J">> >>>>, <<"(", <<>>, << <<"[", 2, <<"L", A>>>> >>>> >>
Handles == Triples(Upto(1, 9), Names, Fields, LAMBDA k, n, t : <<"handle", <<"h", k, <<"m", A, n, t, 0>>>>>>)
           \o Triples(Upto(1, 9), Names, Pairs(Meths, <<0, 1>>, LAMBDA t, f : <<t, f>>), LAMBDA k, n, x : <<"handle", <<"h", k, <<"m", A, n, x[1], x[2]>>>>>>)
HandleBytes == Pairs(Upto(0, 255), <<8, 9>>, LAMBDA k, i : <<"handle-read", <<k>> \o B2(IndexIn(Ident)[i]), BasePool>>)
               \o Pairs(Upto(1, 9), Targets, LAMBDA k, t : <<"handle-read", <<k>> \o B2(t), BasePool>>)
               \o Map(<< <<>>, <<6>>, <<6, 0>>, <<0, 0, 0>>, <<10, 0, 9>> >>, LAMBDA b : <<"handle-read", b, BasePool>>)

---------------------------------------------------------------------------
Offs == <<0, 1, 2, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 246, 247, 248, 251, 252, 255, 256, 257, 32767, 32768, 65279, 65280, 65534, 65535>>
FewOffs == <<0, 1, 63, 64, 127, 128, 255, 256, 65535>>
VTypes == << <<"top">>, <<"int">>, <<"float">>, <<"double">>, <<"long">>, <<"null">>, <<"this">>, <<"object", A>>, <<"object", <<91, 73>>>>,
             <<"object", <<0, 55296, 128512>>>>, <<"uninit", 0>>, <<"uninit", 1>>, <<"uninit", 255>>, <<"uninit", 256>>, <<"uninit", 65534>>, <<"uninit", 65535>> >>
FewV == << <<"top">>, <<"long">>, <<"object", A>>, <<"uninit", 258>> >>
Lists == WordsUpto(FewV, 2) \o Words(SubSeq(FewV, 2, 4), 3) \o Map(VTypes, LAMBDA v : <<v>>) \o Pairs(VTypes, VTypes, LAMBDA v, w : <<v, w>>)
         \o << [i \in 1..4 |-> <<"int">>], [i \in 1..5 |-> <<"int">>], [i \in 1..255 |-> <<"null">>], [i \in 1..256 |-> <<"null">>], [i \in 1..257 |-> FewV[(i % 4) + 1]] >>
Frames == Map(Upto(0, 300) \o Offs, LAMBDA o : <<"same", o>>)
          \o Pairs(Upto(0, 140) \o Offs, SubSeq(FewV, 1, 3), LAMBDA o, v : <<"same1", o, v>>)
          \o Pairs(FewOffs, VTypes, LAMBDA o, v : <<"same1", o, v>>)
          \o Pairs(Offs, Upto(0, 8) \o <<127, 128, 247, 248, 249, 250, 251, 252, 255>>, LAMBDA o, n : <<"chop", o, n>>)
          \o Pairs(<<0, 258, 65535>>, Lists, LAMBDA o, v : <<"append", o, v>>)
          \o Map(Offs, LAMBDA o : <<"append", o, SubSeq(FewV, 1, 2)>>)
          \o Map(Lists, LAMBDA v : <<"full", 7, v, <<>>>>) \o Map(Lists, LAMBDA v : <<"full", 258, <<>>, v>>)
          \o Pairs(SubSeq(Lists, 1, 21), SubSeq(Lists, 1, 21), LAMBDA v, w : <<"full", 1, v, w>>)
          \o Map(Offs, LAMBDA o : <<"full", o, <<FewV[3]>>, <<FewV[4], FewV[1]>>>>)
Tails == << <<>>, <<0>>, <<0, 5>>, <<0, 5, 1>>, <<1, 2, 3>>, <<7, 0, 2>>, <<0, 5, 7, 0, 2, 8, 1, 2, 4>>, <<0, 5, 0, 1, 1, 0, 2, 7, 0, 2, 8, 0, 0>>,
            <<0, 5, 0, 0, 0, 0>>, <<0, 5, 0, 0, 0>>, <<255, 255, 6, 6, 6, 6>>, <<9>>, <<0, 0, 9>>, <<255>>, <<7, 0, 1>>, <<7, 0, 0>>, <<8, 0>>, <<0, 1, 7, 0, 200>> >>
FrameBytes == Pairs(Upto(0, 255), Tails, LAMBDA t, x : <<t>> \o x)
              \o Map(Upto(0, 255), LAMBDA v : <<64, v, 0, 2>>) \o Map(Upto(0, 255), LAMBDA v : <<252, 1, 0, v, 0, 2>>) \o Map(Upto(0, 255), LAMBDA v : <<255, 1, 0, 0, 1, v, 0, 2, 0, 0>>)
              \o Map(Targets, LAMBDA t : <<64, 7>> \o B2(t)) \o Map(Offs, LAMBDA o : <<65, 8>> \o B2(o))
              \o << <<255, 0, 1, 255, 255, 1, 1>>, <<255, 0, 1, 0, 1, 1, 255, 255>>, <<>> >>

---------------------------------------------------------------------------
F4 == << <<0, 0, 0, 0>>, <<128, 0, 0, 0>>, <<0, 0, 0, 1>>, <<128, 0, 0, 1>>, <<0, 128, 0, 0>>, <<63, 128, 0, 0>>, <<191, 128, 0, 0>>, <<127, 127, 255, 255>>, <<255, 127, 255, 255>>,
         <<127, 128, 0, 0>>, <<255, 128, 0, 0>>, <<127, 128, 0, 1>>, <<127, 192, 0, 0>>, <<127, 192, 0, 1>>, <<255, 192, 0, 0>>, <<255, 255, 255, 255>>, <<127, 255, 255, 255>> >>
F8 == Map(F4, LAMBDA x : x \o <<0, 0, 0, 0>>) \o Map(<< 0, 63, 127, 128, 255 >>, LAMBDA x : <<x, 240, 0, 0, 0, 0, 0, 1>>) \o << <<0, 0, 0, 0, 0, 0, 0, 1>>, <<127, 239, 255, 255, 255, 255, 255, 255>> >>
Floats == << <<"compare", 4, F4>>, <<"compare", 8, F8>> >> \o Pairs(F4, F4, LAMBDA x, y : <<"compare", 4, <<x, y>>>>) \o Pairs(F8, F8, LAMBDA x, y : <<"compare", 8, <<x, y>>>>)
          \o For(<<1, 2, 3, 4>>, LAMBDA k : Map(Upto(0, 7), LAMBDA bit : <<"compare", 4, <<F4[6], [F4[6] EXCEPT ![k] = (@ + 2^bit) % 256], F4[13], [F4[13] EXCEPT ![k] = (@ + 2^bit) % 256]>>>>))
          \o For(Upto(1, 8), LAMBDA k : Map(Upto(0, 7), LAMBDA bit : <<"compare", 8, <<F8[6], [F8[6] EXCEPT ![k] = (@ + 2^bit) % 256], F8[13], [F8[13] EXCEPT ![k] = (@ + 2^bit) % 256]>>>>))
          \o For(F4, LAMBDA x : << <<"history", << <<"float", x>>, <<"int", x>>, <<"raw", 4, x>>, <<"const", <<"float", x>>>>, <<"float", [x EXCEPT ![1] = (@ + 128) % 256]>>, <<"float", [x EXCEPT ![4] = (@ + 1) % 256]>> >>>> >>)
          \o For(F8, LAMBDA x : << <<"history", << <<"double", x>>, <<"long", x>>, <<"raw", 6, x>>, <<"const", <<"double", x>>>>, <<"double", [x EXCEPT ![1] = (@ + 128) % 256]>>, <<"double", [x EXCEPT ![8] = (@ + 1) % 256]>> >>>> >>)
---------------------------------------------------------------------------
(* Histories of insertions that are long, or insert large values: indices, counts and lengths that need more than one byte. *)
Copies(n, x) == [k \in 1..n |-> x]
HX == <<120>>
HInt == <<"I">>
HM(t, itf) == <<"m", A, HX, t, itf>>
HB(k) == << <<"h", 6, HM(<<"(", <<>>, <<>>>>, 0)>>, << <<"int", <<0, 0, k \div 256, k % 256>>>> >> >>
HDyn(k, n, t) == <<"dyn", HB(k), n, t>>
HParams(n) == << HM(<<"(", Copies(n, HInt), <<>>>>, 0), HM(<<"(", Copies(n, HInt), <<>>>>, 1), HM(<<"(", Copies(n, HInt), <<HInt>>>>, 0),
                <<"h", 6, HM(<<"(", Copies(n, HInt), <<>>>>, 0)>>, <<"h", 9, HM(<<"(", Copies(n, HInt), <<>>>>, 1)>>, <<"const", <<"mtype", <<"(", Copies(n, <<"J">>), <<>>>>>>>>,
                <<"nat", HX, <<"(", Copies(n, HInt), <<>>>>>>, HDyn(0, HX, <<"(", Copies(n, HInt), <<>>>>), HM(<<"(", Copies(n, HInt), <<>>>>, 0) >>
HDims(n) == << HM(<<"[", n, HInt>>, 0), HM(<<"(", << <<"[", n, HInt>> >>, << <<"[", n, <<"L", A>>>> >>>>, 0), <<"nat", HX, <<"[", n, <<"J">>>>>>, HDyn(0, HX, <<"[", n, HInt>>), HM(<<"[", n, HInt>>, 0) >>
HSized(n) == LET t == Copies(n, 97) u == Append(t, 98) IN
            Map(<<t, u, t>>, LAMBDA x : <<"utf8", x>>) \o Map(<<"class", "string", "class7", "module", "package", "package20">>, LAMBDA k : <<k, t>>) \o <<HM(<<"L", t>>, 0), <<"m", t, t, HInt, 0>>, <<"class", u>> >>
HNum(k) == <<"int", <<0, 0, k \div 256, k % 256>>>>
HText(k) == <<97 + k \div 26, 97 + (k % 26)>>
HAll(k) == << <<"utf8", HText(k)>>, <<"class", HText(k)>>, <<"string", HText(k)>>, <<"module", HText(k)>>, <<"package", HText(k)>>, <<"nat", HText(k), <<"L", HText(k)>>>>, <<"m", HText(k), HText(k), HInt, 0>>,
             <<"m", HText(k), HText(k), <<"(", <<>>, <<>>>>, 0>>, <<"m", HText(k), HText(k), <<"(", <<>>, <<>>>>, 1>>, <<"h", 5, <<"m", HText(k), HText(k), <<"(", <<>>, <<>>>>, 0>>>>,
             <<"const", <<"mtype", <<"(", << <<"L", HText(k)>> >>, <<>>>>>>>>, HDyn(k, HText(k), HInt), HDyn(k, HText(k), <<"(", <<>>, <<>>>>) >>
HBefore == << Map(Upto(1, 250), LAMBDA k : HNum(k)), Map(Upto(1, 126), LAMBDA k : <<"long", <<0, 0, 0, 0, 0, 0, 0, k>>>>), Map(Upto(1, 127), LAMBDA k : <<"double", <<63, 240, 0, 0, 0, 0, 0, k>>>>),
             Map(Upto(1, 300), LAMBDA k : HNum(k)), <<HNum(7)>> \o Map(Upto(1, 64), LAMBDA k : <<"long", <<0, 0, 0, 0, 0, 0, 1, k>>>>) \o Map(Upto(1, 126), LAMBDA k : HNum(k)), Map(Upto(1, 260), LAMBDA k : <<"bsm", HB(k)>>) >>
HLong == For(HBefore, LAMBDA b : << b \o HAll(1) \o HAll(2) \o HAll(1) \o <<b[1], b[2], b[Len(b)], b[Len(b) - 1]>>, HAll(1) \o b \o HAll(1) \o b >>)
        \o For(<<HBefore[2]>>, LAMBDA b : Map(Upto(1, 13), LAMBDA k : Append(b, HAll(3)[k]) \o <<HNum(1), HAll(3)[k]>>))
(* Members of a field type that claim to be of an interface; texts that look like something else. *)
HOdd == << <<91, 73>>, <<91>>, <<91, 76, 65, 59>>, <<76, 65, 59>>, <<73>>, <<40, 41, 86>>, <<>>, <<0>>, <<65, 0>>, <<55296>>, <<55297>>, <<57343>>, <<65533>>, <<128512>>, <<55357, 97>>, <<97, 46, 98>>, <<97, 47, 98>>, <<60, 105, 110, 105, 116, 62>>, <<32, 65>>, <<65, 32>> >>
HTextual(t) == << <<"utf8", t>>, <<"class", t>>, <<"string", t>>, <<"module", t>>, <<"package", t>>, <<"nat", t, HInt>>, <<"const", <<"string", t>>>>, <<"const", <<"class", t>>>> >>
HTextPairs == Pairs(HOdd, <<1, 2, 3, 4, 5, 6, 7, 8>>, LAMBDA t, k : <<HTextual(t)[k]>> \o HTextual(t) \o <<HTextual(t)[k]>>) \o Pairs(HOdd, HOdd, LAMBDA t, u : Joined([k \in 1..8 |-> <<HTextual(t)[k], HTextual(u)[k]>>]))
HFieldItf == For(<<HInt, <<"L", A>>, <<"[", 1, HInt>>, V0>>, LAMBDA t : Pairs(<<0, 1>>, <<0, 1>>, LAMBDA x, y : << HM(t, x), HM(t, y), HM(t, x) >>))
Histories == HTextPairs \o HFieldItf \o Map(<<0, 1, 2, 126, 127, 128, 254, 255, 256, 300>>, LAMBDA n : HParams(n)) \o Map(<<1, 2, 126, 127, 128, 129, 254, 255>>, LAMBDA n : HDims(n))
             \o Map(<<1, 2, 126, 127, 128, 254, 255, 256, 257, 400>>, LAMBDA n : HSized(n)) \o HLong
Cases == TLCEval(CASE Part = "handles" -> Handles \o HandleBytes
                   [] Part = "frames" -> Map(Frames, LAMBDA f : <<"frame", f>>)
                   [] Part = "frame-bytes" -> Map(FrameBytes, LAMBDA b : <<"frame-read", b, BasePool>>)
                   [] Part = "pools" -> Map(Pools, LAMBDA b : <<"lookups", b>>)
                   [] Part = "floats" -> Floats
                   [] Part = "histories" -> Map(Histories, LAMBDA h : <<"history", h>>))
VARIABLE i
Init == TLCSet(13, Cases) /\ i = 0
Next == i < Len(TLCGet(13)) /\ i' = i + 1
Case == TLCGet(13)[i]
Emit == i = 0 \/ PrintT("CASE " \o ToJson(Case))
=============================================================================
